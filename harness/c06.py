"""C06: the preference GP solves and predicts with the Laplace equations.

As in C05 the kernel is a stand-in given by a free positive definite matrix over
numbered points; where the mode is not the subject it is a free vector."""
from engine.api import case
from harness.c05 import Gram, ids, inv, X_ids


def wsym(S, n, psd=True):
    """a symmetric weight matrix W = B Bᵀ (the negative Hessian of a concave likelihood)"""
    B = S.reals('b', (n, n), -2, 2)
    W = [[S.const(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            v = 0
            for k in range(min(i, j) + 1):
                v = v + B[i, k] * B[j, k]
            W[i][j] = v
    return W


def model(S, K, **k):
    return S.lop.PreferenceGP(K, **k)


def mm(a, b):
    n, m, l = len(a), len(b[0]), len(b)
    out = []
    for i in range(n):
        r = []
        for j in range(m):
            v = 0
            for k in range(l):
                v = v + a[i][k] * b[k][j]
            r.append(v)
        out.append(r)
    return out


def laplace(S, K, n, te, F, W):
    """mean K*' K^-1 F and covariance K** - K*' (I + W K)^-1 W K*"""
    Kt = [[K.G[i][j] for j in range(n)] for i in range(n)]
    Ki = inv(Kt)
    ks = [[K.G[t][i] for i in range(n)] for t in te]
    mu = [sum_(S, [ks[a][i] * Ki[i][j] * F[j] for i in range(n) for j in range(n)]) for a in range(len(te))]
    A = mm(W, Kt)
    for i in range(n):
        A[i][i] = A[i][i] + 1
    M = mm(inv_gen(A), W)
    cov = []
    for a in range(len(te)):
        r = []
        for b in range(len(te)):
            r.append(K.G[te[a]][te[b]] - sum_(S, [ks[a][i] * M[i][j] * ks[b][j] for i in range(n) for j in range(n)]))
        cov.append(r)
    return mu, cov


def inv_gen(m):
    return inv(m)


def sum_(S, l):
    v = 0
    for x in l:
        v = v + x
    return v


def stored(S, m, K, n, F, W):
    """a trained model with the given mode and weights"""
    m.add(ids(S, range(n)), S.np.array([S.lop.preference(0, 1)]) if n > 1 else S.np.array([1]),
          type='relative_discrete' if n > 1 else 'ordinal')
    m.K = K.cov(ids(S, range(n)), ids(S, range(n)))
    m.F, m.W = F, S.array(W)
    m.optimized = True


def pred(n, k, tier, over=False):
    @case('C06', 'prediction: %d points, %d queries%s' % (n, k, ', given training set' if over else ''), tier=tier, weight=n * n * k,
          bounds='any positive definite kernel matrix over %d points, any mode in [-4,4], any positive semidefinite W' % (n + k),
          timeout=40.0, branch_timeout=0.6)
    def h(S):
        K = Gram(S, n + k, psd=False)
        K.psd(range(n))
        m = model(S, K)
        F = S.reals('f', n, -4, 4)
        W = wsym(S, n)
        te = list(range(n, n + k))
        stored(S, m, K, n, F, W)
        if over:                # the stored values are not the ones that count
            m.F, m.W = F * 0 + 1, S.array(W) * 0
            mu, var = m.predict(ids(S, te), ids(S, range(n)), F, S.array(W))
        else:
            mu, var = m.predict(ids(S, te))
        emu, ecov = laplace(S, K, n, te, F, W)
        S.check(S.true() if len(mu) == k and len(var) == k and m.cov.shape == (k, k) else S.false(), 'one mean and variance per query')
        for a in range(k):
            S.check(S.eq(mu[a], emu[a]), 'the mean is the Laplace posterior mean')
            for b in range(k):
                S.check(S.eq(m.cov[a, b], ecov[a][b]), 'the covariance is the Laplace posterior covariance')
            S.check(S.ge(var[a], 0), 'a reported variance is not negative')
            S.check(S.any([S.eq(var[a], ecov[a][a]), S.all([S.eq(var[a], 0), S.ge(0, ecov[a][a])])]),
                    'the variance is the diagonal of the posterior covariance (never below zero)')
        if not over:
            S.check(S.eqv(m(ids(S, te)), mu), 'calling the model returns the mean')


pred(1, 1, 'quick')
pred(1, 2, 'quick')
pred(2, 1, 'quick')
pred(2, 1, 'quick', True)
pred(2, 2, 'thorough')
pred(3, 1, 'thorough')


@case('C06', 'variance within the prior', bounds='1 training point, 1 query, any kernel matrix, W >= 0')
def _v(S):
    K = Gram(S, 2)
    m = model(S, K)
    W = wsym(S, 1)
    stored(S, m, K, 1, S.reals('f', 1, -4, 4), W)
    mu, var = m.predict(ids(S, [1]))
    S.check(S.ge(K.G[1][1], var[0]), 'the posterior variance does not exceed the prior variance')


@case('C06', 'kernel matrix without a Cholesky factor', bounds='2 training points, 1 query, any invertible indefinite kernel matrix',
      ctx={'fork_singular': True})
def _f(S):
    K = Gram(S, 3, psd=False)
    g = K.G
    S.assume(S.gt(-0.01, g[0][0] * g[1][1] - g[0][1] * g[0][1]))
    m = model(S, K)
    F = S.reals('f', 2, -4, 4)
    stored(S, m, K, 2, F, [[S.const(0)] * 2] * 2)
    mu, var = m.predict(ids(S, [2]))
    emu, ecov = laplace(S, K, 2, [2], F, [[S.const(0)] * 2] * 2)
    S.check(S.eq(mu[0], emu[0]), 'the mean is the Laplace posterior mean')


def large(q, data, tier):
    @case('C06', 'large batches: %d queries%s' % (q, '' if data else ', no data'), tier=tier,
          bounds='%d queries, any kernel values, mode and weight' % q, ctx={})
    def h(S):
        n = 1 if data else 0
        K = Large(S, n, q)
        m = model(S, K)
        if data:
            F = S.reals('f', 1, -4, 4)
            w = S.real('w', 0.01, 4)
            m.add(ids(S, [0]), S.np.array([1]), type='ordinal')
            m.K = K.cov(ids(S, [0]), ids(S, [0]))
            m.F, m.W = F, S.array([[w]])
            m.optimized = True
        mu, var = m.predict_large(ids(S, range(n, n + q)))
        S.check(S.true() if len(mu) == q and len(var) == q else S.false(), 'one mean and variance per query')
        for i in range(q):
            v = K.d[i]
            e = S.const(0)
            if data:
                e = K.c[i] / K.k0 * F[0]
                v = v - K.c[i] * K.c[i] * w / (1 + w * K.k0)
            S.check(S.eq(mu[i], e), 'large-batch prediction gives each query its own mean')
            S.check(S.any([S.eq(var[i], v), S.all([S.eq(var[i], 0), S.ge(0, v)])]),
                    'large-batch prediction gives each query its own variance')


class Large:
    """one training point, queries whose mutual covariance is irrelevant"""

    def __init__(self, S, n, q):
        self.S, self.n = S, n
        free = {0, 13, 14, 15, q - 1}      # the others are fixed numbers: their values do not interact
        self.k0 = S.real('k0', 0.1, 5)
        self.c = [S.real('c%d' % i, -3, 3) if i in free else S.const(i + 1, 50) for i in range(q)]
        self.d = [S.real('d%d' % i, 2, 5) if i in free else S.const(100 + i, 3) for i in range(q)]
        for i in range(q):
            if i in free:
                S.assume(S.gt(self.d[i] * self.k0, self.c[i] * self.c[i]))

    def one(self, a, b):
        n = self.n
        if a < n and b < n:
            return self.k0
        if a < n or b < n:
            return self.c[max(a, b) - n]
        return self.d[a - n] if a == b else self.S.const(0)

    def cov(self, X, Y):
        return self.S.array([[self.one(a, b) for b in X_ids(Y)] for a in X_ids(X)])


for _q in (1, 15, 16):
    large(_q, True, 'quick')
large(17, False, 'quick')
large(31, True, 'thorough')


@case('C06', 'prior without data', bounds='3 points, any kernel matrix; before any data and after a reset')
def _p(S):
    K = Gram(S, 3, psd=False)
    m = model(S, K)
    if S.boolean('after reset'):
        m.add(ids(S, [0]), S.np.array([1]), type='ordinal')
        m.reset()
    mu, var = m.predict(ids(S, range(3)))
    for i in range(3):
        S.check(S.eq(mu[i], 0), 'without data the mean is zero')
        S.check(S.eq(var[i], K.G[i][i]), 'without data the variance is the prior variance')
        for j in range(3):
            S.check(S.eq(m.cov[i, j], K.G[i][j]), 'without data the covariance is the prior covariance')


# ---------------------------------------------------------------- mode finding
def labels(S, n, k):
    """k preferences among n points"""
    y = []
    for i in range(k):
        u = S.choice('u%d' % i, n)
        v = S.choice('v%d' % i, n - 1)
        v = v if v < u else v + 1
        y.append((-1 if S.boolean('dk%d' % i) else 1, u, v))
    return y


def logpost(S, K, n, y, s):
    """log p(y|F) - F'K^-1 F / 2 as a function of a list of latent values"""
    Ki = inv([[K.G[i][j] for j in range(n)] for i in range(n)])

    def f(F):
        t = loglik(S, y, s)(F)
        for i in range(n):
            for j in range(n):
                t = t - F[i] * Ki[i][j] * F[j] * S.const(1, 2)
        return t
    return f


def loglik(S, y, s):
    def f(F):
        t = 0
        for dk, u, v in y:
            a, b = (u, v) if dk == -1 else (v, u)
            t = t + S.fn('log', S.fn('ndtr', (F[a] - F[b]) / (S.np.sqrt(2) * s)))
        return t
    return f


def setup(S, n, k, fixed=False, **kw):
    K = Gram(S, n)
    m = model(S, K, **kw)
    s = S.real('sigma', 0.3, 4.0)
    m.probits[0].set_sigma(s)
    y = [(-1, 0, 1)] if fixed else labels(S, n, k)
    m.add(ids(S, range(n)), S.np.array(y))
    return K, m, s, y


def steps(n, k, tier):
    @case('C06', 'mode search steps: %d points, %d preferences' % (n, k), tier=tier, weight=6, branch_timeout=0.6,
          bounds='any kernel matrix, sigma in [0.3,4]; up to 2 steps, each from any point in [-3,3]')
    def h(S):
        K, m, s, y = setup(S, n, k, k == 1)
        m.maxloops = 1
        calls = []

        def step(F, gradient, hess, *a, **kw):
            i = len(calls)
            calls.append((list(F), gradient, hess))
            if i > 1:
                S.check(S.false(), 'the search stops after the allowed number of loops')
            new = S.reals('g%d' % i, n, -3, 3) if i == 0 else S.array(list(F))
            calls[-1] += (new,)
            return new
        m.newton_update = step
        X, yt = m.X_train, m.y_train
        m.find_mode(X, yt)
        f = logpost(S, K, n, y, s)
        for F, g, H, new in calls:
            d = S.gradient(f, F)
            for i in range(n):
                S.check(S.eq(g[i], d[i]), 'a search step uses the gradient of the log posterior')
                di = S.gradient(lambda t: S.gradient(f, t)[i], F) if S.mode == 'sym' else None
                for j in range(n):
                    if di is not None:
                        S.check(S.eq(H[i, j], di[j]), 'a search step uses the Hessian of the log posterior')
        if calls:
            last = calls[-1][3]
            S.check(S.eqv(m.F, last), 'the stored mode is the result of the last step')
            if len(calls) <= 1:
                S.check(S.all([S.all([S.ge(m.delta_f, new[i] - F[i]), S.ge(m.delta_f, F[i] - new[i])]) for i in range(n)]),
                        'the search stops early only when the values have converged')
        finals(S, K, m, n, y, s)
    return h


def finals(S, K, m, n, y, s):
    f = loglik(S, y, s)
    F = list(m.F)
    S.check(S.eq(m.log_likelihood, f(F)), 'the stored log-likelihood is the one at the mode')
    d = S.gradient(f, F)
    for i in range(n):
        S.check(S.eq(m.grad_ll[i], d[i]), 'the stored gradient is the one at the mode')
        di = S.gradient(lambda t: S.gradient(f, t)[i], F) if S.mode == 'sym' else None
        for j in range(n):
            if di is not None:
                S.check(S.eq(m.W[i, j], -di[j]), 'the stored W is the negative Hessian at the mode')
            S.check(S.eq(m.K[i, j], K.G[i][j]), 'the stored K is the kernel matrix of the training points')


steps(2, 1, 'quick')
steps(2, 2, 'thorough')
steps(3, 1, 'thorough')


@case('C06', 'a real search step', bounds='2 points, any kernel matrix, any likelihood gradient and W, start in [0,1), step length in [0,1.5]',
      branch_timeout=0.6, weight=5, budget=120.0, timeout=30.0)
def _s(S):
    K, m, s, y = setup(S, 2, 1, True)
    m.maxloops = 0
    lam = S.real('lam', 0, 1.5)          # the step length is the subject of C19
    W, g0 = wsym(S, 2), S.reals('g', 2, -2, 2)
    used, der = [], []
    m.binary_line_search = lambda *a, **k: used.append(1) or lam
    m.derivatives = lambda y, F: der.append(list(F)) or (S.array(W), S.array(list(g0)), S.const(0))
    m.find_mode(m.X_train, m.y_train)
    if not used or not der:
        S.cut()
    F0 = der[0]
    D = [m.F[i] - F0[i] for i in range(2)]
    Ki = inv([[K.G[i][j] for j in range(2)] for i in range(2)])
    for i in range(2):
        g = g0[i] - Ki[i][0] * F0[0] - Ki[i][1] * F0[1]
        h = (W[i][0] + Ki[i][0]) * D[0] + (W[i][1] + Ki[i][1]) * D[1]
        S.check(S.eq(h, lam * g), 'the step is the Newton step times the step length found')


@case('C06', 'prediction after optimisation', bounds='2 points, 1 preference, 1 query, any kernel matrix and mode', branch_timeout=0.6)
def _o(S):
    K = Gram(S, 3)
    m = model(S, K)
    s = S.real('sigma', 0.3, 4.0)
    m.probits[0].set_sigma(s)
    m.add(ids(S, range(2)), S.np.array([(-1, 0, 1)]))
    m.maxloops = 0
    F = S.reals('g', 2, -3, 3)
    m.newton_update = lambda *a, **k: F
    mu, var = m.predict(ids(S, [2]))
    W = [[m.W[i, j] for j in range(2)] for i in range(2)]
    emu, ecov = laplace(S, K, 2, [2], F, W)
    S.check(S.eq(mu[0], emu[0]), 'predicting optimises first and uses the mode')
    S.check(S.eq(m.cov[0, 0], ecov[0][0]), 'predicting optimises first and uses the mode')


def norm(pos, n, tier):
    @case('C06', 'normalised mode%s: %d points' % (', positive' if pos else '', n), branch_timeout=0.6, tier=tier,
          bounds='%d points, one preference, any kernel matrix, any step result in [-3,3]' % n)
    def h(S):
        K, m, s, y = setup(S, n, 1, True, normalize_gp=True, normalize_positive=pos)
        m.maxloops = 0
        G = S.reals('g', n, -3, 3)
        if S.boolean('first above second'):
            S.assume(S.gt(G[0], G[1] + S.const(1, 100), 0))
        else:
            S.assume(S.gt(G[1], G[0] + S.const(1, 100), 0))
        m.newton_update = lambda *a, **k: S.array(list(G))
        m.find_mode(m.X_train, m.y_train)
        F = m.F
        if pos:
            S.check(S.all([S.all([S.ge(F[i], 0), S.ge(1, F[i])]) for i in range(n)]), 'a positive normalised mode lies in [0,1]')
            S.check(S.all([S.any([S.eq(F[i], 0) for i in range(n)]), S.any([S.eq(F[i], 1) for i in range(n)])]),
                    'a positive normalised mode reaches 0 and 1')
        else:
            S.check(S.all([S.all([S.ge(F[i], -1), S.ge(1, F[i])]) for i in range(n)]), 'a normalised mode lies in [-1,1]')
            S.check(S.any([S.any([S.eq(F[i], 1), S.eq(F[i], -1)]) for i in range(n)]), 'a normalised mode reaches magnitude one')
        for i in range(n):
            for j in range(n):
                S.check(S.implies(S.ge(G[i], G[j], 0), S.ge(F[i], F[j])), 'normalising keeps the order')


for _p in (False, True):
    norm(_p, 2, 'quick')
    norm(_p, 3, 'thorough')


def logdet(S, K, n):
    """log of the determinant as the sum of the logs of the pivots"""
    G = [[K.G[i][j] for j in range(n)] for i in range(n)]
    t = 0
    for i in range(n):
        t = t + S.fn('log', G[i][i])
        for j in range(i + 1, n):
            for k in range(i + 1, n):
                G[j][k] = G[j][k] - K_(G, i, j, k)
    return t


def K_(G, i, j, k):
    return G[j][i] * G[i][k] / G[i][i]


def likli(n, tier):
    @case('C06', 'log posterior: %d points' % n, tier=tier, weight=4, branch_timeout=0.6,
          bounds='any kernel matrix, sigma, latent values in [-3,3]')
    def h(S):
        K, m, s, y = setup(S, n, 1, True)
        F = S.reals('f', n, -3, 3)
        Km = K.cov(m.X_train, m.X_train)
        L = S.np.linalg.cholesky(Km)
        v = m.likli_f(F, m.X_train, m.y_train, Km, L)
        e = logpost(S, K, n, y, s)(list(F)) - logdet(S, K, n) * S.const(1, 2) - S.const(n, 2) * S.np.log(2 * S.np.pi)
        S.check(S.eq(v, e), 'the log posterior is log p(y|F) + log N(F; 0, K)')
        m.debug_print = False
        m.K, m.F = Km, F
        W, _, _ = m.derivatives(m.y_train, F)
        A = mm([[K.G[i][j] for j in range(n)] for i in range(n)], [[W[i, j] for j in range(n)] for i in range(n)])
        for i in range(n):
            A[i][i] = A[i][i] + 1
        S.assume(S.gt(det(A), 1e-6))
        e2 = logpost(S, K, n, y, s)(list(F)) - S.fn('log', det(A)) * S.const(1, 2)
        S.check(S.eq(m.likli_f_hyper(F, m.X_train, m.y_train), e2), 'the evidence is the Laplace approximation')


def det(m):
    n = len(m)
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


likli(2, 'quick')
likli(3, 'thorough')


# ---------------------------------------------------------------- histories
def free_derivatives(S, m):
    """any likelihood gradient and weights, new ones at every call"""
    out = []

    def d(y, F):
        n, i = len(F), len(out)
        W = S.reals('W%d' % i, (n, n), -2, 2)
        for a in range(n):
            for b in range(a):
                W[a, b] = W[b, a]
        for a in range(n):
            W[a, a] = W[a, a] + 4
        out.append((y, list(F), W))
        return S.array(W), S.reals('gl%d' % i, n, -2, 2), S.real('ll%d' % i, -9, 0)
    m.derivatives = d
    return out


def history(how, tier='quick'):
    names = ('new data after a reset', 'more ratings', 'more scores', 'more preferences', 'a point without labels')

    @case('C06', 'prediction history: ' + names[how], tier=tier, branch_timeout=0.6, weight=4,
          bounds='predict, %s, predict again: any kernel matrix over the points, any mode and likelihood derivatives' % names[how])
    def h(S):
        K = Gram(S, 4, psd=False)
        K.psd([0, 1])
        m = model(S, K)
        m.maxloops = 0
        S.swap(S.np.linalg, 'norm', lambda *a, **k: S.const(0))         # one step is enough here: fewer paths
        seen = free_derivatives(S, m)
        F = []

        def step(f, *a, **k):
            F.append(S.reals('F%d' % len(F), len(f), -3, 3))
            return F[-1]
        m.newton_update = step
        if S.boolean('large'):
            ask = m.predict_large
        else:
            ask = m.predict
        m.add(ids(S, [0]), S.np.array([1]), type='ordinal')
        ask(ids(S, [2]))
        k = len(seen)
        tr = [0, 1]
        if how == 0:
            m.reset()
            m.add(ids(S, [1]), S.np.array([1]), type='ordinal')
            tr = [1]
        elif how == 1:
            m.add(ids(S, [1]), S.np.array([2]), type='ordinal')
        elif how == 2:
            m.add(ids(S, [1]), S.np.array([0.5]), type='abs')
        elif how == 3:
            m.add(ids(S, [1, 3]), [S.lop.preference(0, 1)])
            tr = [0, 1, 3]
        else:
            m.add(ids(S, [1]), [])
        mu, var = ask(ids(S, [2]))
        S.check(S.true() if len(seen) > k and seen[-1][0] is m.y_train else S.false(), 'new data is used for the next prediction')
        if len(seen) == k or len(F[-1]) != len(tr):
            S.check(S.false(), 'the mode has a value for every training point')
            return
        if len(tr) == 3:
            K.psd(tr)
        n = len(tr)
        P = Sub(K, tr + [2])
        W = [[seen[-1][2][i, j] for j in range(n)] for i in range(n)]
        S.check(S.eqv(seen[-1][1], F[-1]), 'the weights are the ones at the mode')
        if n < 3:
            emu, ecov = laplace(S, P, n, [n], F[-1], W)
            S.check(S.eq(mu[0], emu[0]), 'the mean is the Laplace posterior mean of the data now stored')
            S.check(S.eq(m.cov[0, 0], ecov[0][0]), 'the covariance is the Laplace posterior covariance of the data now stored')


class Sub:
    def __init__(self, K, ix):
        self.G = [[K.G[a][b] for b in ix] for a in ix]


for _h in range(5):
    history(_h)


@case('C06', 'a search on other data than the stored', branch_timeout=0.6,
      bounds='2 points, 2 opposite preferences stored, one handed over; any kernel matrix, sigma and start')
def _x(S):
    K = Gram(S, 4)
    m = model(S, K)
    s = S.real('sigma', 0.3, 4.0)
    m.probits[0].set_sigma(s)
    m.add(ids(S, [2, 3]), S.np.array([(-1, 1, 0), (-1, 1, 0)]))
    if S.boolean('used before'):
        m.K = K.cov(ids(S, [2, 3]), ids(S, [2, 3]))
        m.F, m.W, m.optimized = S.reals('f', 2, -3, 3), S.array(wsym(S, 2)), True
    X, y = ids(S, [0, 1]), [S.np.array([(-1, 0, 1)]), None, None]
    m.maxloops = 0
    calls = []

    def step(F, gradient, hess, loss, args, *a, **k):
        d = S.gradient(f, list(F))
        for i in range(2):
            S.check(S.eq(gradient[i], d[i]), 'a search step uses the gradient of the log posterior')
        g = [S.reals('p%d' % i, 2, -3, 3) for i in range(2)]
        v = [loss(t, *args) for t in g]
        S.check(S.eq(v[0] - v[1], f(list(g[0])) - f(list(g[1]))), 'the step length is searched on the log posterior')
        calls.append(1)
        return g[0]
    f = logpost(S, K, 2, [(-1, 0, 1)], s)
    m.newton_update = step
    m.find_mode(X, y)
    finals(S, K, m, 2, [(-1, 0, 1)], s)


@case('C06', 'a kernel matrix that cannot be factored', bounds='2 points, any kernel matrix, the factorisation fails; any start',
      branch_timeout=0.6)
def _n(S):
    K, m, s, y = setup(S, 2, 1, True)

    K.get_param = lambda: S.array([])

    def fail(*a, **k):
        raise S.np.linalg.LinAlgError('not positive definite')
    S.swap(S.np.linalg, 'cholesky', fail)
    S.swap(S.np, 'save', lambda *a, **k: None)         # the real one writes into the current directory
    m.find_mode(m.X_train, m.y_train)
    S.check(S.all([S.all([S.ge(m.F[i], 0), S.ge(1, m.F[i])]) for i in range(2)]), 'the search returns a start value')
    finals(S, K, m, 2, y, s)


@case('C06', 'the last search after tuning', bounds='4 points, 3 preferences and a score, every split; converging at any of the first 2 rounds')
def _h(S):
    m = model(S, Gram(S, 4, psd=False), use_hyper_optimization=True)
    m.add(ids(S, range(4)), S.np.array([(-1, 0, 1), (1, 1, 2), (-1, 2, 3)]))
    m.add(ids(S, [0]), (S.np.array([0.4]), S.np.array([0])), type='abs')
    log = []
    n = len(m.X_train)
    m.find_mode = lambda X, y, **k: log.append(('mode', X, y))
    m.randomize_hyper = lambda: log.append(('random',))

    def search(Xt, yt, Xv, yv, prev, itr=0):
        log.append(('tune', Xt, yt, Xv, yv))
        if len([e for e in log if e[0] == 'tune']) >= 2:
            return True
        return S.boolean('converged')
    m.hyperparameter_search = search
    m.optimize(optimize_hyperparameter=True)
    S.check(S.true() if log and log[-1][0] == 'mode' and log[-1][1] is m.X_train and log[-1][2] is m.y_train and m.optimized else S.false(),
            'after tuning the mode is searched on all the data')
    for i, e in enumerate(log[:-1]):
        if e[0] != 'tune':
            continue
        S.check(S.true() if log[i - 1][0] == 'mode' and log[i - 1][1] is e[1] and log[i - 1][2] is e[2] else S.false(),
                'tuning uses the mode of the data it is given')
        S.check(S.true() if e[3] is m.X_train and e[4] is m.y_train else S.false(), 'tuning is judged on all the data')
        at = [int(x[0]) for x in e[1]]
        S.check(S.true() if 0 < len(at) < n else S.false(), 'tuning trains on a part of the data')
        got = [] if e[2][0] is None else [(int(p[0]), at[int(p[1])], at[int(p[2])]) for p in e[2][0]]
        S.check(S.true() if all((p in [(-1, 0, 1), (1, 1, 2), (-1, 2, 3)]) for p in got) else S.false(),
                'labels of the training part refer to the points they were given for')
        if e[2][2] is not None:
            S.check(S.true() if [at[int(i)] for i in e[2][2][1]] == [0] else S.false(),
                    'labels of the training part refer to the points they were given for')
