"""C19: line searches improve the objective they are given."""
from engine.api import case


def model(S):
    return S.lop.PreferenceLinear()


def clip(S, x, lo, hi):
    return S.ite(S.ge(lo, x, 0), lo, S.ite(S.ge(x, hi, 0), hi, x))


def quad(itr, custom, tier):
    @case('C19', 'bisection on a quadratic: %d halvings%s' % (itr, ', any interval' if custom else ''), tier=tier, weight=itr,
          bounds='any concave quadratic (curvature in [0.01,100], optimum at a step in [-10,10]), any start, direction in [0.1,10]')
    def h(S):
        a, st = S.real('a', 0.01, 100), S.real('best', -10, 10)
        f, d = S.real('f', -5, 5), S.real('d', 0.1, 10)
        if S.boolean('down'):
            d = -d
        c = S.real('c', -3, 3)
        lo, hi = S.const(0), S.const(3, 2)
        kw = {'max_itr': itr}
        if custom:
            lo = S.real('lo', 0, 2)
            hi = lo + S.real('len', 0.5, 5)
            kw.update(min_lambda=lo, max_lambda=hi)
        got = []

        def loss(x, off):
            got.append(off)
            t = x[0] - (f - st * d)       # d times the distance to the optimum
            return off - a * t * t
        lam = model(S).binary_line_search(S.array([f]), S.array([d]), loss, (c,), **kw)
        S.check(S.all([S.eq(o, c, 0) for o in got]), 'the loss gets the extra arguments it was given')
        S.check(S.all([S.ge(lam, lo), S.ge(hi, lam)]), 'the step lies inside the search interval')
        b = clip(S, st, lo, hi)
        tol = (hi - lo) / 2 ** itr
        S.check(S.all([S.ge(tol, lam - b), S.ge(tol, b - lam)]), 'the step is within the resolution of the best step')


for _i in (1, 2, 3, 5):
    quad(_i, False, 'quick')
quad(2, True, 'quick')
quad(4, True, 'thorough')
quad(7, False, 'thorough')


@case('C19', 'bisection on any objective', bounds='any loss values, 3 halvings')
def _a(S):
    n = [0]

    def loss(x):
        n[0] += 1
        return S.real('l%d' % n[0], -50, 50)
    lam = model(S).binary_line_search(S.reals('f', 2, -3, 3), S.reals('d', 2, -3, 3), loss, (), max_itr=3)
    S.check(S.all([S.ge(lam, 0), S.ge(S.const(3, 2), lam)]), 'the step lies inside the search interval')


def grid(itr, custom, tier):
    @case('C19', 'grid search: %d steps%s' % (itr, ', any interval' if custom else ''), tier=tier, weight=itr,
          bounds='any loss values at %d steps' % itr)
    def h(S):
        seen = []
        lo, hi = (S.const(1, 4), S.const(3)) if custom else (S.const(1, 100), S.const(3, 2))
        kw = dict(max_itr=itr)
        if custom:
            kw.update(min_lambda=0.25, max_lambda=3.0)

        def loss(x, arg):
            S.check(S.true() if arg == 7 else S.false(), 'the loss gets the extra arguments it was given')
            v = S.real('l%d' % len(seen), -50, 50)
            seen.append((x[0], v))
            return v
        lam = model(S).iterative_line_search(S.array([S.const(0)]), S.array([S.const(-1)]), loss, (7,), **kw)
        S.check(S.true() if len(seen) in (itr, itr + 1) else S.false(), 'every grid step is tried')
        for i, (x, v) in enumerate(seen[:itr]):
            S.check(S.eq(x, lo + (hi - lo) * i / itr), 'the grid divides the interval evenly')
        for x, v in seen:
            S.check(S.all([S.ge(x, lo), S.ge(hi, x)]), 'the step lies inside the search interval')
            S.check(S.any([S.not_(S.eq(lam, x)), S.all([S.ge(v, w) for _, w in seen])]), 'the grid search returns its best step')
        S.check(S.any([S.eq(lam, x) for x, _ in seen]), 'the grid search returns its best step')


grid(2, False, 'quick')
grid(4, False, 'quick')
grid(3, True, 'quick')
grid(6, False, 'thorough')


@case('C19', 'grid search without a finite loss', bounds='losses that are minus infinity at every step')
def _i(S):
    m = model(S)
    ok = S.expect_raises(lambda: m.iterative_line_search(S.array([S.const(0)]), S.array([S.const(1)]), lambda x: -S.np.inf, ()),
                         Exception)
    S.check(S.true() if ok else S.false(), 'a grid search without any finite loss is reported')


def sym2(S):
    A = [[S.real('h00', -5, -0.2), S.real('h10', -3, 3)], [None, S.real('h11', -5, -0.2)]]
    A[1][0] = A[0][1]
    S.assume(S.gt(A[0][0] * A[1][1] - A[0][1] * A[1][0], 0.01))
    return A


def newton(kind):
    @case('C19', 'Newton update: %s' % kind, bounds='2 parameters, any negative definite Hessian (entries within +-5), any gradient and '
          'any step found by the line search')
    def h(S):
        m = model(S)
        H = sym2(S)
        F, g = S.reals('f', 2, -3, 3), S.reals('g', 2, -3, 3)
        lam = S.real('lam', 0, 1.5)
        m.lambda_gp = lam
        calls = []

        def search(name):
            def s(F, descent, loss_func, loss_args=(), *a, **k):
                calls.append((name, F, descent, loss_func, loss_args, k.get('max_itr', a[-1] if a else None)))
                return lam
            return s
        m.binary_line_search, m.iterative_line_search = search('binary'), search('iter')

        def loss(x, a, b):
            return S.const(0)
        N = m.newton_update(F, g, S.array(H), loss, (1, 2), lambda_type=kind, line_search_max_itr=3)
        if kind != 'static':
            S.check(S.true() if [c[0] for c in calls] == [kind] else S.false(), 'the update uses the line search asked for')
            c = calls[0]
            S.check(S.true() if c[3] is loss and tuple(c[4]) == (1, 2) and c[5] == 3 else S.false(),
                    'the line search gets the objective, its arguments and the number of steps')
            S.check(S.eqv(c[1], F), 'the line search starts at the current point')
            S.check(S.all([S.eq(N[i], F[i] - lam * c[2][i]) for i in range(2)]),
                    'the update moves by the step found along the searched direction')
        for i in range(2):
            S.check(S.eq(H[i][0] * (N[0] - F[0]) + H[i][1] * (N[1] - F[1]), -lam * g[i]),
                    'the update moves along the Newton direction by the step found')


for _k in ('static', 'binary', 'iter'):
    newton(_k)


def climb(kind, itr, tier):
    @case('C19', 'Newton update on a quadratic: %s, %d' % (kind, itr), tier=tier, weight=3,
          bounds='2 parameters, any concave quadratic (curvature entries within +-5, optimum in [-3,3]), any start in [-3,3]')
    def h(S):
        m = model(S)
        H = sym2(S)
        F, o = S.reals('f', 2, -3, 3), S.reals('o', 2, -3, 3)

        def q(x):
            u, v = x[0] - o[0], x[1] - o[1]
            return (H[0][0] * u * u + 2 * H[0][1] * u * v + H[1][1] * v * v) * S.const(1, 2)
        S.assume(S.any([S.gt(F[0], o[0] + S.const(1, 10)), S.gt(o[0], F[0] + S.const(1, 10))]))
        g = S.array([H[0][0] * (F[0] - o[0]) + H[0][1] * (F[1] - o[1]), H[1][0] * (F[0] - o[0]) + H[1][1] * (F[1] - o[1])])
        N = m.newton_update(F, g, S.array(H), q, lambda_type=kind, line_search_max_itr=itr)
        res = S.const(3, 2) / 2 ** itr if kind == 'binary' else S.const(3, 2) / itr
        # the remaining error is a share of the old one, the same in every parameter
        r = (N[0] - o[0]) / (F[0] - o[0])
        S.check(S.eq((N[1] - o[1]) * (F[0] - o[0]), (N[0] - o[0]) * (F[1] - o[1])), 'the update heads for the optimum of a quadratic')
        S.check(S.all([S.ge(res, r), S.ge(r, -res)]), 'the update lands on the optimum up to the resolution')


climb('binary', 2, 'quick')
climb('binary', 3, 'thorough')
climb('iter', 3, 'thorough')


@case('C19', 'Newton update without an inverse', bounds='2 parameters, any gradient, Hessian whose inversion fails')
def _f(S):
    m = model(S)
    F, g = S.reals('f', 2, -3, 3), S.reals('g', 2, -3, 3)
    lam = S.real('lam', 0.01, 1.5)
    m.lambda_gp = lam

    def fail(a):
        raise S.np.linalg.LinAlgError('singular')
    N = m.newton_update(F, g, S.array([[S.const(0)] * 2] * 2), lambda x: 0, invert_function=fail, lambda_type='static')
    up = (N[0] - F[0]) * g[0] + (N[1] - F[1]) * g[1]
    S.check(S.ge(up, 0), 'without a Newton direction the update still climbs')
    S.check(S.implies(S.gt(g[0] * g[0] + g[1] * g[1], 0.01), S.gt(up, 0, 0)), 'without a Newton direction the update still climbs')


@case('C19', 'unknown step rule', bounds='none')
def _u(S):
    m = model(S)
    ok = S.expect_raises(lambda: m.newton_update(S.array([S.const(1)]), S.array([S.const(1)]), S.array([[S.const(-1)]]), lambda x: 0,
                                                 lambda_type='other'), ValueError)
    S.check(S.true() if ok else S.false(), 'an unknown step rule is rejected')
