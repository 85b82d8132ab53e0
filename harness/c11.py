"""C11: a model combines its data sources and hyper-parameters consistently."""
from engine.api import case
from harness.c05 import Gram, ids
from harness.c10 import inner


KINDS = ('relative_discrete', 'ordinal', 'abs')


def subset(S, tag='kinds', least=0):
    while True:
        b = [S.boolean('%s%d' % (tag, i)) for i in range(3)]
        if sum(b) < least:
            S.cut()
        return b


def give(S, m, b, n=2):
    """labels of the chosen kinds, all about the same n points"""
    X = ids(S, range(n))
    y = [None] * 3
    if b[0]:
        y[0] = S.np.array([(-1, 0, 1)])
    if b[1]:
        y[1] = (S.np.array([4, 2]), S.np.array([0, 1]))
    if b[2]:
        y[2] = (S.np.array([0.3, 0.6]), S.np.array([0, 1]))
    m.X_train = X
    m.y_train = y
    m.optimized = True
    return y


def total(S, l):
    v = 0
    for x in l:
        v = v + x
    return v


@case('C11', 'sums over the data kinds', bounds='every combination of preference, ordinal and score data over 2 points; latent '
      'values in [-2,2]', weight=5, branch_timeout=0.6)
def _s(S):
    b = subset(S)
    m = S.lop.PreferenceGP(Gram(S, 2, psd=False))
    y = give(S, m, b)
    F = S.reals('f', 2, -2, 2)
    parts = [m.probits[j].derivatives(y[j], F) for j in range(3) if b[j]]
    W, g, ll = m.derivatives(y, F)
    S.check(S.true() if W.shape == (2, 2) and len(g) == 2 else S.false(), 'one gradient entry and Hessian row per point')
    for i in range(2):
        S.check(S.eq(g[i], total(S, [p[1][i] for p in parts])), 'the gradient is the sum over the kinds of data')
        for k in range(2):
            S.check(S.eq(W[i, k], total(S, [p[0][i, k] for p in parts])), 'the Hessian is the sum over the kinds of data')
    S.check(S.eq(ll, total(S, [p[2] for p in parts])), 'the log-likelihood is the sum over the kinds of data')
    own = total(S, [m.probits[j].log_likelihood(y[j], F) for j in range(3) if b[j]])
    S.check(S.eq(m.log_likelyhood_training(F), own), 'the training log-likelihood is the sum over the kinds of data')
    S.check(S.eq(m.log_likelyhood_training(F, y), own), 'the training log-likelihood is the sum over the kinds of data')


@case('C11', 'stand-in likelihoods', bounds='every combination of data kinds over 2 points, any likelihood parts', weight=2)
def _t(S):
    b = subset(S)
    lin = S.boolean('linear model')
    m = S.lop.PreferenceLinear() if lin else S.lop.PreferenceGP(Gram(S, 2, psd=False))
    y = give(S, m, b)
    Ws, gs, ls = [], [], []
    for j in range(3):
        Ws.append(S.reals('W%d' % j, (2, 2), -2, 2))
        gs.append(S.reals('g%d' % j, 2, -2, 2))
        ls.append(S.real('l%d' % j, -9, 0))
        m.probits[j] = Part(S, y[j], Ws[j], gs[j], ls[j])
    F = S.reals('f', 2, -2, 2)
    if not lin:
        W, g, ll = m.derivatives(y, F)
        S.check(S.eq(ll, total(S, [ls[j] for j in range(3) if b[j]])), 'the log-likelihood is the sum over the kinds of data')
        for i in range(2):
            S.check(S.eq(g[i], total(S, [gs[j][i] for j in range(3) if b[j]])), 'the gradient is the sum over the kinds of data')
            for k in range(2):
                S.check(S.eq(W[i, k], total(S, [Ws[j][i, k] for j in range(3) if b[j]])),
                        'the Hessian is the sum over the kinds of data')
    S.check(S.eq(m.log_likelyhood_training(F), total(S, [ls[j] for j in range(3) if b[j]])),
            'the training log-likelihood is the sum over the kinds of data')


class Part:
    def __init__(self, S, y, W, g, l):
        self.S, self.y, self.W, self.g, self.l = S, y, W, g, l

    def derivatives(self, y, F):
        self.S.check(self.S.true() if y is self.y else self.S.false(), 'every likelihood gets its own labels')
        return self.S.array(self.W), self.S.array(self.g), self.l

    def log_likelihood(self, y, F):
        self.S.check(self.S.true() if y is self.y else self.S.false(), 'every likelihood gets its own labels')
        return self.l


# ------------------------------------------------------------- hyper-parameters
def kernel(S, k):
    L = S.lop
    if k == 0:
        return L.RBF_kern(0.5, 0.7)
    if k == 1:
        return L.RBF_kern(0.5, 0.7) + L.LinearKern(0.3, 0.2, 0.1)
    return L.RBF_kern(0.5, 0.7) * L.PeriodicKern(0.4, 0.6, 0.8)


def where(m, b, v_only):
    """the places the hyper-parameters belong to, in order"""
    r = []
    if b[0]:
        r.append(lambda: m.probits[0].sigma)
    if b[1]:
        r += [lambda: m.probits[1].sigma, lambda: m.probits[1].b[-2]]
    if b[2]:
        r += ([] if v_only else [lambda: m.probits[2].sigma]) + [lambda: m.probits[2].v]
    return r


@case('C11', 'set and get hyper-parameters', bounds='every combination of data kinds, probit-only or with 3 kernels, any values in '
      '[0.1,5]')
def _h(S):
    b = subset(S)
    only, v_only = S.boolean('probit only'), S.boolean('v only')
    k = 0 if only else S.choice('kernel', 3)
    kern = kernel(S, k)
    m = S.lop.PreferenceGP(kern, hyperparam_only_probit=only)
    m.probits[2].optimize_v_only = v_only
    give(S, m, b)
    places = where(m, b, v_only)
    before_k, before = list(kern.get_param()), [m.probits[0].sigma, m.probits[1].sigma, m.probits[2].sigma, m.probits[2].v]
    nk = len(before_k)
    n = len(places) + (0 if only else nk)
    x0 = m.get_hyper()
    S.check(S.true() if len(x0) == n else S.false(), 'one value per hyper-parameter of the components in use')
    x = S.reals('x', n, 0.1, 5)
    m.set_hyper(x)
    x1 = m.get_hyper()
    S.check(S.eqv(x1, x), 'hyper-parameters read back as they were set')
    for i, p in enumerate(places):
        S.check(S.eq(p(), x[i]), 'each hyper-parameter reaches the component it belongs to')
    kp = kern.get_param()
    for i in range(nk):
        S.check(S.eq(kp[i], before_k[i] if only else x[len(places) + i]), 'each hyper-parameter reaches the component it belongs to')
    now = [m.probits[0].sigma, m.probits[1].sigma, m.probits[2].sigma, m.probits[2].v]
    used = [b[0], b[1], b[2] and not v_only, b[2]]
    for i in range(4):
        if not used[i]:
            S.check(S.eq(now[i], before[i]), 'components without data keep their hyper-parameters')


@case('C11', 'random hyper-parameters', bounds='every combination of data kinds, probit-only or with 3 kernels, any draws in [0.1,5]')
def _r(S):
    b = subset(S)
    only, v_only = S.boolean('probit only'), S.boolean('v only')
    kern = kernel(S, 0 if only else S.choice('kernel', 3))
    m = S.lop.PreferenceGP(kern, hyperparam_only_probit=only)
    m.probits[2].optimize_v_only = v_only
    give(S, m, b)
    # what each component draws for itself
    pv, leaf = {}, []
    for j in range(3):
        if j == 1:
            continue
        cnt = 1 if j == 0 or v_only else 2
        pv[j] = S.reals('p%d' % j, cnt, 0.1, 5)
        m.probits[j].randomize_hyper = (lambda v: lambda: S.array(list(v)))(pv[j])
    o0 = list(m.probits[1].get_hyper())
    ks = [kern] if not hasattr(kern, 'a') else [kern.a, kern.b]
    for i, kk in enumerate(ks):
        v = S.reals('k%d' % i, len(kk.get_param()), 0.1, 5)
        kk.randomize_hyper = (lambda v: lambda: S.array(list(v)))(v)
        leaf += list(v)
    k0 = list(kern.get_param())
    m.randomize_hyper()
    if b[0]:
        S.check(S.eq(m.probits[0].sigma, pv[0][0]), 'a random hyper-parameter reaches the component that drew it')
    if b[2]:
        S.check(S.eq(m.probits[2].v, pv[2][-1]), 'a random hyper-parameter reaches the component that drew it')
        if not v_only:
            S.check(S.eq(m.probits[2].sigma, pv[2][0]), 'a random hyper-parameter reaches the component that drew it')
    o1 = list(m.probits[1].get_hyper())
    for i in range(2):
        S.check(S.eq(o0[i], o1[i]), 'ordinal parameters have no prior and stay')
    kp = kern.get_param()
    for i in range(len(k0)):
        S.check(S.eq(kp[i], k0[i] if only else leaf[i]), 'a random hyper-parameter reaches the component that drew it')


@case('C11', 'one random value per hyper-parameter', bounds='every component', ctx={})
def _n(S):
    L = S.lop
    cs = [L.PreferenceProbit(), L.PreferenceProbit(optimize_parameters=False), L.OrdinalProbit(), L.AbsBoundProbit(),
          L.AbsBoundProbit(optimize_v_only=False), L.AbsBoundProbit(optimize_parameters=False)]
    c = cs[S.choice('c', len(cs))]
    r = c.randomize_hyper()
    S.check(S.true() if len(r) == len(c.get_hyper()) else S.false(), 'one random value per hyper-parameter')


@case('C11', 'hyper-parameter priors', bounds='every combination of data kinds, probit-only or with the RBF kernel, any values in [0.1,5]')
def _p(S):
    b = subset(S)
    only, v_only = S.boolean('probit only'), S.boolean('v only')
    kern = kernel(S, 0)
    m = S.lop.PreferenceGP(kern, hyperparam_only_probit=only)
    m.probits[2].optimize_v_only = v_only
    give(S, m, [b[0], False, b[2]])
    n = len(m.get_hyper())
    x = S.reals('x', n, 0.1, 5)

    def at(t):
        m.set_hyper(S.array(list(t)))
        return m.hyper_liklihood()
    v = at(list(x))
    parts = [m.probits[j].param_likli() for j in (0, 2) if b[j]] + ([] if only else [kern.param_likli()])
    S.check(S.eq(v, total(S, parts)), 'the log prior is the sum over the components in use')
    g = m.grad_hyper_liklihood()
    S.check(S.true() if len(g) == n else S.false(), 'one derivative per hyper-parameter')
    d = S.gradient(at, list(x)) if n else []
    for i in range(n):
        S.check(S.eq(g[i], d[i]), 'the gradient of the log prior is exact')


class Fixed:
    """a kernel without parameters"""

    def __init__(self, K, n):
        self.K, self.n = K, n

    def cov(self, X, Y):
        return self.K.cov(X, Y)

    def cov_gradient(self, X, Y):
        return []

    def get_param(self):
        return []


def evid(kind, tier):
    @case('C11', 'evidence gradient: %s' % KINDS[kind], tier=tier, weight=4, branch_timeout=0.6, timeout=30.0,
          bounds='2 points, any kernel matrix, latent values in [-2,2], hyper-parameter in %s' % ('[0.3,4]' if kind == 0 else '[2,100]'))
    def h(S):
        K = Gram(S, 2)
        m = S.lop.PreferenceGP(Fixed(K, 2))
        b = [kind == 0, False, kind == 2]
        y = give(S, m, b)
        if kind == 2:
            y[2] = (S.reals('y', 1, 0.1, 0.9), S.np.array([0]))
        m.debug_print = False
        F = S.reals('f', 2, -2, 2)
        if kind == 2:
            inner(S, [F[0]], S.const(1), m.probits[2])
        x = S.real('x', *((0.3, 4.0) if kind == 0 else (2.0, 100.0)))

        def at(t):
            m.set_hyper(S.array([t[0]]))
            return m.likli_f_hyper(F, m.X_train, y)
        d = S.gradient(at, [x])
        m.set_hyper(S.array([x]))
        g = m.grad_likli_f_hyper(F, m.X_train, y)
        S.check(S.true() if len(g) == 1 else S.false(), 'one derivative per hyper-parameter')
        S.check(S.eq(g[0], d[0]), 'the evidence gradient is exact for fixed latent values')


evid(0, 'quick')
evid(2, 'quick')


@case('C11', 'stand-in priors', bounds='every combination of data kinds, with and without kernel parameters, any log priors and derivatives')
def _q(S):
    b = subset(S)
    only, lin = S.boolean('probit only'), S.boolean('linear model')
    kern = kernel(S, 0)
    m = S.lop.PreferenceLinear() if lin else S.lop.PreferenceGP(kern, hyperparam_only_probit=only)
    give(S, m, b)
    l = S.reals('l', 4, -9, 0)
    g = [S.reals('g%d' % j, 2, -3, 3) for j in range(4)]

    def put(o, j):
        o.param_likli = lambda: l[j]
        o.grad_param_likli = lambda: S.array(list(g[j]))
    for j in range(3):
        put(m.probits[j], j)
    put(kern, 3)
    use = [j for j in range(3) if b[j]] + ([] if lin or only else [3])
    S.check(S.eq(m.hyper_liklihood(), total(S, [l[j] for j in use])), 'the log prior is the sum over the components in use')
    r = m.grad_hyper_liklihood()
    e = [v for j in use for v in g[j]]
    S.check(S.true() if len(r) == len(e) else S.false(), 'one derivative per hyper-parameter')
    for i in range(min(len(r), len(e))):
        S.check(S.eq(r[i], e[i]), 'the gradient of the log prior lists every component in order')


@case('C11', 'labels handed over', bounds='every combination of stored and handed over data kinds over 2 points, any likelihood parts')
def _u(S):
    b, c = subset(S, 'stored'), subset(S, 'given')
    m = S.lop.PreferenceGP(Gram(S, 2, psd=False))
    y = give(S, m, c)
    give(S, m, b)
    Ws, gs, ls = [], [], []
    for j in range(3):
        Ws.append(S.reals('W%d' % j, (2, 2), -2, 2))
        gs.append(S.reals('g%d' % j, 2, -2, 2))
        ls.append(S.real('l%d' % j, -9, 0))
        m.probits[j] = Part(S, y[j], Ws[j], gs[j], ls[j])
    F = S.reals('f', 2, -2, 2)
    W, g, ll = m.derivatives(y, F)
    e = total(S, [ls[j] for j in range(3) if c[j]])
    S.check(S.eq(ll, e), 'the labels handed over are the ones that count')
    S.check(S.eq(m.log_likelyhood_training(F, y), e), 'the labels handed over are the ones that count')
    for i in range(2):
        S.check(S.eq(g[i], total(S, [gs[j][i] for j in range(3) if c[j]])), 'the labels handed over are the ones that count')
        for k in range(2):
            S.check(S.eq(W[i, k], total(S, [Ws[j][i, k] for j in range(3) if c[j]])), 'the labels handed over are the ones that count')


def tuning(pref, avg):
    dim = 1 if pref else 3
    @case('C11', 'tuning steps: %s, %d averaged' % ('preferences' if pref else 'preferences and scores', avg), branch_timeout=0.6,
          bounds='%d consecutive steps, any gradients and prior values, settings 0.5 at the start, averages over %d steps' % (avg + 2, avg))
    def h(S):
        m = S.lop.PreferenceGP(Gram(S, 2, psd=False))
        y = give(S, m, [True, False, not pref])
        m.hyper_grad_avg, m.hyper_grad_tol = avg, S.const(1, 2)
        x = [S.const(1, 2)] * len(m.get_hyper())
        m.set_hyper(S.array(x))
        n, g, like, rnd = len(x), [], [], []

        def grad(at, *a, **k):
            S.check(S.eqv(at, x), 'the gradient is taken at the current hyper-parameters')
            g.append([S.real('g%d_%d' % (len(g), i), -3, 3) if i == 0 else S.const(1, 4) for i in range(n)])
            return S.array(g[-1])

        def prior():
            like.append(S.real('l%d' % len(like), -300, 50))
            return like[-1]

        def start():
            rnd.append(1)
            m.set_hyper(S.array([S.const(3, 5)] * n))
        m.hyperparamter_obj_grad, m.hyper_liklihood, m.randomize_hyper = grad, prior, start
        prev = []
        for step in range(avg + 2):
            x = list(m.get_hyper())
            k = len(rnd)
            done = m.hyperparameter_search(m.X_train, y, m.X_train, y, prev, 0)
            if len(g) != step + 1 or len(like) != step + 1:
                S.cut()
            if len(rnd) > k:
                S.check(S.gt(-100, like[-1]), 'plausible settings are never thrown away')
            else:
                S.check(S.gt(like[-1], -200), 'implausible settings are replaced by random ones')
                z = list(m.get_hyper())
                for i in range(n):
                    d = z[i] - x[i]
                    S.check(S.all([S.implies(S.gt(g[-1][i], 0, 0), S.gt(0, d, 0)), S.implies(S.gt(0, g[-1][i], 0), S.gt(d, 0, 0))]),
                            'a step goes against the gradient')
            if done:
                S.check(S.true() if step + 1 >= avg else S.false(), 'tuning never stops before there are enough steps to average over')
            if step + 1 >= avg:
                q = S.const(0)
                for i in range(n):
                    q = q + (total(S, [v[i] for v in g[-avg:]]) / avg) ** 2
                S.check(S.ge(m.hyper_grad_tol ** 2, q) if done else S.ge(q, m.hyper_grad_tol ** 2),
                        'tuning stops when the latest gradients average out, and only then')


tuning(True, 2)
tuning(True, 4)
tuning(False, 3)
