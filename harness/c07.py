"""C07: kernels are symmetric, consistent and differentiate exactly."""
from engine.api import case

# hyper-parameters are positive; the periodic kernel divides by its period
KINDS = {'rbf': 2, 'lin': 3, 'per': 3, 'rbf0': 2, 'rbf0z': 2}


def make(S, kind, tag='', dim=1):
    """a kernel with symbolic hyper-parameters -> (kernel, theta, noise)"""
    k = KINDS[kind]
    th = [S.real('th%s%d' % (tag, i), 0.05, 8.0) for i in range(k)]
    if kind == 'rbf':
        nz = S.real('noise' + tag, 0.0, 1.0)
        return S.lop.RBF_kern(th[0], th[1], sigma_noise=nz), th, nz
    if kind == 'rbf0':        # default zero point: the origin
        nz = S.real('noise' + tag, 0.0, 1.0)
        return S.lop.RBF_kern_zeroed(th[0], th[1], sigma_noise=nz), th, nz
    if kind == 'rbf0z':       # any zero point
        nz = S.real('noise' + tag, 0.0, 1.0)
        return S.lop.RBF_kern_zeroed(th[0], th[1], zero_pt=S.reals('zero', dim, -4, 4), sigma_noise=nz), th, nz
    if kind == 'lin':
        return S.lop.LinearKern(*th), th, 0
    return S.lop.PeriodicKern(*th), th, 0


def expr_kern(S, spec, dim=1):
    """spec: kind or (op, spec, spec) -> (kernel, theta, noise(u==v), fresh(theta)->kernel)"""
    cnt = [0]

    def rec(sp):
        if isinstance(sp, str):
            cnt[0] += 1
            return make(S, sp, 'abcd'[cnt[0] - 1], dim)
        op, a, b = sp
        ka, ta, na = rec(a)
        kb, tb, nb = rec(b)
        return (ka + kb if op == '+' else ka * kb), ta + tb, None
    return rec(spec)


def oracle(S, kind, th, u, v, zero=None):
    """the documented formula of each kernel"""
    d = len(u)
    if kind == 'rbf':
        t = 0
        for i in range(d):
            t = t + (u[i] - v[i]) * (u[i] - v[i])
        return th[0] * th[0] * S.fn('exp', -t / (2 * th[1] * th[1]))
    if kind in ('rbf0', 'rbf0z'):
        z = zero if zero is not None else [S.const(0)] * d
        a = oracle(S, 'rbf', th, u, v)
        b = oracle(S, 'rbf', th, u, z) * oracle(S, 'rbf', th, v, z) / (th[0] * th[0])
        return a - b
    if kind == 'lin':
        t = 0
        for i in range(d):
            t = t + (u[i] - th[2]) * (v[i] - th[2])
        return th[1] * th[1] + th[0] * th[0] * t
    n = 0
    for i in range(d):
        n = n + abs(u[i] - v[i])
    s = S.fn('sin', S.np.pi * n / th[2])
    return th[0] * th[0] * S.fn('exp', -2 * s * s / (th[1] * th[1]))


def name(sp):
    return sp if isinstance(sp, str) else '(%s %s %s)' % (name(sp[1]), sp[0], name(sp[2]))


def mk(spec, dim, tier='quick', parts=('sym', 'formula', 'cov', 'cov2', 'grad', 'covgrad', 'param', 'prior')):
    nm = '%s dim=%d' % (name(spec), dim)
    bd = 'all inputs of dimension %d within [-4,4], all hyper-parameters in [0.05,8], noise in [0,1]' % dim
    single = isinstance(spec, str)

    if 'sym' in parts:
        @case('C07', 'symmetric ' + nm, tier=tier, bounds=bd)
        def h(S):
            k, th, nz = expr_kern(S, spec, dim)
            u, v = S.reals('u', dim, -4, 4), S.reals('v', dim, -4, 4)
            S.check(S.eq(k(u, v), k(v, u)), 'k(u,v) = k(v,u)')

    if 'formula' in parts and single:
        @case('C07', 'formula ' + nm, tier=tier, bounds=bd)
        def h(S):
            k, th, nz = expr_kern(S, spec, dim)
            u, v = S.reals('u', dim, -4, 4), S.reals('v', dim, -4, 4)
            z = k.zero_pt if spec == 'rbf0z' else None
            S.check(S.eq(k(u, v), oracle(S, spec, th, u, v, z)), 'the kernel is the documented function')
            if spec in ('rbf0', 'rbf0z'):
                zz = z if z is not None else S.array([S.const(0)] * dim)
                S.check(S.eq(k(u, zz), 0), 'a zeroed kernel vanishes at its zero point')

    if 'cov' in parts:
        @case('C07', 'cov of a set with itself ' + nm, tier=tier, bounds=bd + ', 2 points')
        def h(S):
            k, th, nz = expr_kern(S, spec, dim)
            X = S.reals('x', (2, dim), -4, 4)
            c = k.cov(X, X)
            S.check(S.true() if c.shape == (2, 2) else S.false(), 'the covariance has one row and column per point')
            S.check(S.eq(c[0, 1], c[1, 0]), 'the covariance matrix is symmetric')
            S.check(S.eq(c[0, 1], k(X[0], X[1])), 'off-diagonal entries equal the kernel of the pair')
            if nz is not None:
                for i in range(2):
                    S.check(S.eq(c[i, i], k(X[i], X[i]) + nz), 'diagonal entries equal the kernel plus the noise')

        @case('C07', 'cov of one point with itself ' + nm, tier=tier, bounds=bd + ', 1 point')
        def h(S):
            k, th, nz = expr_kern(S, spec, dim)
            X = S.reals('x', (1, dim), -4, 4)
            c = k.cov(X, X)
            S.check(S.true() if c.shape == (1, 1) else S.false(), 'the covariance has one row and column per point')
            if nz is not None:
                S.check(S.eq(c[0, 0], k(X[0], X[0]) + nz), 'diagonal entries equal the kernel plus the noise')

    if 'cov2' in parts:
        for n, m in ((2, 1), (1, 2), (2, 2), (1, 1)):
            def g(n=n, m=m):
                @case('C07', 'cov of %d against %d points %s' % (n, m, nm), tier=tier,
                      bounds=bd + ', %d and %d points that are not the same set' % (n, m))
                def h(S):
                    k, th, nz = expr_kern(S, spec, dim)
                    X = S.reals('x', (n, dim), -4, 4)
                    Y = S.reals('y', (m, dim), -4, 4)
                    if n == m:
                        S.assume(S.not_(S.all([S.eq(X[i, q], Y[i, q], 0) for i in range(n) for q in range(dim)])))
                    c = k.cov(X, Y)
                    S.check(S.true() if c.shape == (n, m) else S.false(), 'the covariance has one row and column per point')
                    for i in range(n):
                        for j in range(m):
                            S.check(S.eq(c[i, j], k(X[i], Y[j])), 'entries between different sets equal the kernel of the pair')
            g()

    if 'grad' in parts:
        @case('C07', 'gradient ' + nm, tier=tier, bounds=bd)
        def h(S):
            k, th, nz = expr_kern(S, spec, dim)
            u, v = S.reals('u', dim, -4, 4), S.reals('v', dim, -4, 4)
            g = k.gradient(u, v)

            def f(t):
                k.set_param(S.array(list(t)))
                return k(u, v)
            d = S.gradient(f, th)
            S.check(S.true() if len(g) == len(th) else S.false(), 'one derivative per hyper-parameter')
            for i in range(len(th)):
                S.check(S.eq(g[i], d[i]), 'kernel derivative %d is the true partial derivative' % i)

    if 'covgrad' in parts:
        @case('C07', 'cov_gradient ' + nm, tier=tier, bounds=bd + ', 2 against 1 and 2 against 2 points')
        def h(S):
            k, th, nz = expr_kern(S, spec, dim)
            X = S.reals('x', (2, dim), -4, 4)
            same = S.boolean('same')
            Y = X if same else S.reals('y', (1, dim), -4, 4)
            g = k.cov_gradient(X, Y)
            S.check(S.true() if len(g) == len(th) else S.false(), 'one derivative matrix per hyper-parameter')
            if len(g) != len(th):
                return
            for i in range(2):
                for j in range(len(Y)):
                    def f(t):
                        k.set_param(S.array(list(t)))
                        return k.cov(X, Y)[i, j]
                    d = S.gradient(f, th)
                    for q in range(len(th)):
                        S.check(S.true() if g[q].shape == (2, len(Y)) else S.false(),
                                'a derivative matrix has the shape of the covariance')
                        S.check(S.eq(g[q][i, j], d[q]), 'covariance derivative %d is the true partial derivative' % q)

    if 'param' in parts:
        @case('C07', 'parameters ' + nm, tier=tier, bounds=bd + ', any two parameter vectors')
        def h(S):
            k, th, nz = expr_kern(S, spec, dim)
            S.check(S.true() if len(k) == len(th) else S.false(), 'the kernel reports its number of hyper-parameters')
            S.check(S.eqv(k.get_param(), S.array(list(th)), 0), 'parameters given to the constructor are read back')
            t2 = S.reals('t2', len(th), 0.05, 8.0)
            k.set_param(t2)
            S.check(S.eqv(k.get_param(), t2, 0), 'parameters that were set are read back in order')
            k2, _, _ = expr_kern(S, spec, dim)
            u, v = S.reals('u', dim, -4, 4), S.reals('v', dim, -4, 4)
            if spec == 'rbf0z':
                k2.zero_pt = k.zero_pt
            k2.set_param(t2)
            S.check(S.eq(k(u, v), k2(u, v)), 'the kernel depends on its current parameters only')

    if 'prior' in parts:
        @case('C07', 'prior ' + nm, tier=tier, bounds=bd)
        def h(S):
            k, th, nz = expr_kern(S, spec, dim)

            def f(t):
                k.set_param(S.array(list(t)))
                return k.param_likli()
            g = k.grad_param_likli()
            d = S.gradient(f, th)
            S.check(S.true() if len(g) == len(th) else S.false(), 'one prior derivative per hyper-parameter')
            for i in range(len(th)):
                S.check(S.eq(g[i], d[i]), 'the prior gradient is the derivative of the log prior')


def flat(kind):
    @case('C07', 'cov of 1-D samples ' + kind, bounds='two and one scalar samples in [-4,4], all hyper-parameters')
    def h(S):
        k, th, nz = make(S, kind)
        x, y = S.reals('x', 2, -4, 4), S.reals('y', 1, -4, 4)
        a, b = x[:, None], y[:, None]
        S.check(S.eqv(k.cov(x, y), k.cov(a, b)), 'scalar samples are one-dimensional points')
        S.check(S.eqv(k.cov(x, x), k.cov(a, a)), 'scalar samples are one-dimensional points')
        for p, q in zip(k.cov_gradient(x, y), k.cov_gradient(a, b)):
            S.check(S.eqv(p, q), 'scalar samples are one-dimensional points (derivatives)')


for _k in ('rbf', 'lin', 'per', 'rbf0'):
    flat(_k)
for _k in ('rbf', 'lin', 'per', 'rbf0', 'rbf0z'):
    mk(_k, 1)
    mk(_k, 2, parts=('sym', 'formula', 'cov', 'cov2', 'grad', 'covgrad'))
for _sp in (('+', 'lin', 'rbf'), ('*', 'lin', 'rbf'), ('*', 'rbf', 'per'), ('+', 'rbf', 'rbf0')):
    mk(_sp, 1)
mk(('+', ('*', 'lin', 'rbf'), 'per'), 1)
mk(('*', ('+', 'lin', 'rbf'), 'per'), 1)
mk(('+', 'lin', ('*', 'rbf', 'per')), 1)
for _k in ('rbf', 'lin', 'per', 'rbf0'):
    mk(_k, 3, 'thorough')
for _sp in (('*', 'rbf', 'rbf0'), ('+', 'per', 'lin'), ('*', 'lin', 'per'), ('*', 'lin', ('*', 'rbf', 'per'))):
    mk(_sp, 2, 'thorough')
