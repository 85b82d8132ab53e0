"""C05: Gaussian-process regression returns the exact posterior.

The kernel handed to the GP is a stand-in whose covariance between any two of
the points involved is a free symbol (symmetric, positive definite), so a result
holds for every kernel and every placement of the points."""
from engine.api import case


class Gram:
    """a kernel given by its matrix over numbered points"""

    def __init__(self, S, n, psd=True):
        self.S = S
        self.G = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                v = S.real('k%d%d' % (i, j), 0.05 if i == j else -3.0, 5.0 if i == j else 3.0)
                self.G[i][j] = self.G[j][i] = v
        if psd:
            self.psd(range(n))

    def psd(self, ix):
        S, ix = self.S, list(ix)
        g = self.G
        for a in range(len(ix)):
            for b in range(a):
                i, j = ix[a], ix[b]
                S.assume(S.gt(g[i][i] * g[j][j] - g[i][j] * g[i][j], 1e-3))
        if len(ix) >= 3:
            for a in range(len(ix)):
                for b in range(a):
                    for c in range(b):
                        S.assume(S.gt(det3([[g[p][q] for q in (ix[a], ix[b], ix[c])] for p in (ix[a], ix[b], ix[c])]), 1e-3))

    def cov(self, X, Y):
        return self.S.array([[self.G[int(a)][int(b)] for b in X_ids(Y)] for a in X_ids(X)])


def X_ids(X):
    return [int(x[0]) if hasattr(x, '__len__') else int(x) for x in X]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inv(m):
    """exact inverse of a symmetric matrix of order 1..3 (adjugate)"""
    n = len(m)
    if n == 1:
        return [[1 / m[0][0]]]
    if n == 2:
        d = m[0][0] * m[1][1] - m[0][1] * m[1][0]
        return [[m[1][1] / d, -m[0][1] / d], [-m[1][0] / d, m[0][0] / d]]
    d = det3(m)

    def cof(i, j):
        r = [[m[a][b] for b in range(3) if b != j] for a in range(3) if a != i]
        v = r[0][0] * r[1][1] - r[0][1] * r[1][0]
        return v if (i + j) % 2 == 0 else -v
    return [[cof(j, i) / d for j in range(3)] for i in range(3)]


def ids(S, l):
    return S.np.array([[float(i)] for i in l])


def setup(S, n, m, withmean, vec):
    K = Gram(S, n + m)
    mean = S.reals('mean', n + m, -3, 3)
    mf = (lambda X: S.array([mean[i] for i in X_ids(X)])) if withmean else None
    g = S.lop.GP(K, mean_func=mf)
    y = S.reals('y', n, -5, 5)
    if vec:
        sg = S.reals('noise', n, 0.001, 2.0)
    else:
        s0 = S.real('noise', 0.001, 2.0)
        sg = [s0] * n
    mu0 = mean if withmean else [S.const(0)] * (n + m)
    return K, g, y, sg, mu0


def posterior(S, K, n, m, y, sg, mu0, order=None):
    tr = list(range(n)) if order is None else order
    A = [[K.G[a][b] + (sg[i] if i == j else 0) for j, b in enumerate(tr)] for i, a in enumerate(tr)]
    Ai = inv(A)
    te = list(range(n, n + m))
    mu, cov = [], []
    for t in te:
        v = mu0[t]
        for i, a in enumerate(tr):
            for j, b in enumerate(tr):
                v = v + K.G[t][a] * Ai[i][j] * (y[j] - mu0[b])
        mu.append(v)
        row = []
        for u in te:
            c = K.G[t][u]
            for i, a in enumerate(tr):
                for j, b in enumerate(tr):
                    c = c - K.G[t][a] * Ai[i][j] * K.G[b][u]
            row.append(c)
        cov.append(row)
    return mu, cov


def mk(n, m, withmean, vec, tier, split=None):
    nm = '%d observations, %d queries%s%s%s' % (n, m, ', prior mean' if withmean else '', ', own noise each' if vec else '',
                                                 '' if split is None else ', added as %d+%d' % (split, n - split))
    bd = 'any positive definite kernel matrix over %d points (entries within +-5), values, prior means and noise >= 0.001' % (n + m)

    @case('C05', 'posterior: ' + nm, tier=tier, bounds=bd, weight=n * n * m, branch_timeout=0.6)
    def h(S):
        K, g, y, sg, mu0 = setup(S, n, m, withmean, vec)
        X = ids(S, range(n))
        parts = [range(n)] if split is None else [range(split), range(split, n)]
        for p in parts:
            p = list(p)
            noise = S.array([sg[i] for i in p]) if vec else sg[0]
            if vec and S.boolean('as list'):
                noise = list(noise)
            g.add(ids(S, p), S.array([y[i] for i in p]), training_sigma=noise)
        Xt = ids(S, range(n, n + m))
        mu, var = g.predict(Xt)
        emu, ecov = posterior(S, K, n, m, y, sg, mu0)
        S.check(S.true() if len(mu) == m and len(var) == m else S.false(), 'one mean and variance per query')
        for t in range(m):
            S.check(S.eq(mu[t], emu[t]), 'the mean is the exact posterior mean')
            S.check(S.ge(var[t], 0), 'a reported variance is not negative')
            for u in range(m):
                S.check(S.eq(g.cov[t, u], ecov[t][u]), 'the covariance is the exact posterior covariance')
            S.check(S.any([S.eq(var[t], g.cov[t, t]), S.all([S.eq(var[t], 0), S.ge(0, g.cov[t, t])])]),
                    'the variance is the diagonal of the posterior covariance (never below zero)')
        S.check(S.eqv(g(Xt), mu), 'calling the model returns the mean')
        mu2, var2 = g.predict_large(Xt)
        S.check(S.all([S.eqv(mu, mu2), S.eqv(var, var2)]), 'large-batch prediction gives the same answer')


for _n, _m in ((1, 1), (1, 2), (2, 1)):
    mk(_n, _m, False, False, 'quick')
    mk(_n, _m, True, False, 'quick')
mk(2, 2, True, False, 'thorough')
mk(2, 1, True, True, 'quick')
mk(2, 1, True, False, 'quick', split=1)
mk(2, 1, False, True, 'quick', split=1)
mk(3, 1, True, False, 'thorough')
mk(3, 1, True, True, 'thorough', split=2)
mk(3, 2, True, False, 'thorough')


def bound(n, tier):
    @case('C05', 'variance bounds: %d observations' % n, tier=tier, timeout=60.0, branch_timeout=1.0,
          bounds='any positive definite kernel matrix over %d points, noise >= 0.001' % (n + 1))
    def h(S):
        K, g, y, sg, mu0 = setup(S, n, 1, False, False)
        g.add(ids(S, range(n)), y, training_sigma=sg[0])
        mu, var = g.predict(ids(S, [n]))
        S.check(S.ge(var[0], 0), 'a reported variance is not negative')
        S.check(S.ge(K.G[n][n], var[0]), 'the posterior variance does not exceed the prior variance')


bound(1, 'quick')
bound(2, 'quick')


@case('C05', 'prior without data', bounds='3 points, any kernel matrix and prior means')
def _p(S):
    K = Gram(S, 3)
    withmean = S.boolean('mean')
    mean = S.reals('mean', 3, -3, 3)
    g = S.lop.GP(K, mean_func=(lambda X: S.array([mean[i] for i in X_ids(X)])) if withmean else None)
    if S.boolean('after reset'):
        g.add(ids(S, [0]), S.reals('y', 1, -5, 5), training_sigma=0.1)
        g.reset()
    mu, var = g.predict(ids(S, range(3)))
    for i in range(3):
        S.check(S.eq(mu[i], mean[i] if withmean else 0), 'without data the mean is the prior mean')
        S.check(S.eq(var[i], K.G[i][i]), 'without data the variance is the prior variance')
        for j in range(3):
            S.check(S.eq(g.cov[i, j], K.G[i][j]), 'without data the covariance is the prior covariance')


@case('C05', 'observations in any order', bounds='2 observations, 1 query, any kernel matrix, values and noise')
def _o(S):
    K, g, y, sg, mu0 = setup(S, 2, 1, True, True)
    h = S.lop.GP(K, mean_func=g.mean_func)
    g.add(ids(S, [0, 1]), y, training_sigma=S.array(list(sg)))
    h.add(ids(S, [1, 0]), S.array([y[1], y[0]]), training_sigma=S.array([sg[1], sg[0]]))
    a, b = g.predict(ids(S, [2])), h.predict(ids(S, [2]))
    S.check(S.eq(a[0][0], b[0][0]), 'the order of observations does not matter')
    S.check(S.eq(a[1][0], b[1][0]), 'the order of observations does not matter')


@case('C05', 'best candidate', bounds='1 observation, 3 candidates, any kernel matrix')
def _b(S):
    K, g, y, sg, mu0 = setup(S, 1, 3, True, False)
    g.add(ids(S, [0]), y, training_sigma=sg[0])
    X = ids(S, [1, 2, 3])
    mu = g.predict(X)[0]
    i = int(g.select_best(X))
    for j in range(3):
        S.check(S.ge(mu[i], mu[j]), 'the best candidate has the largest mean')


@case('C05', 'radial kernel posterior', bounds='1 observation and 1 query in [-4,4], any RBF parameters and noise')
def _r(S):
    s, l, nz = S.real('s', 0.2, 4.0), S.real('l', 0.2, 4.0), S.real('nz', 0.001, 1.0)
    k = S.lop.RBF_kern(s, l, sigma_noise=nz)
    g = S.lop.GP(k)
    X, q = S.reals('x', (1, 1), -4, 4), S.reals('q', (1, 1), -4, 4)
    S.assume(S.not_(S.eq(X[0, 0], q[0, 0], 0)))
    y = S.reals('y', 1, -4, 4)
    e = S.real('e', 0.001, 1.0)
    g.add(X, y, training_sigma=e)
    mu, var = g.predict(q)
    c = k(X[0], q[0])
    A = s * s + nz + e
    S.check(S.eq(mu[0], c * y[0] / A), 'the mean is the exact posterior mean')
    S.check(S.eq(g.cov[0, 0], s * s + nz - c * c / A), 'the variance is the exact posterior variance')


@case('C05', 'a second life', bounds='1 observation each before and after, 1 query each, any kernel matrix, prior means, values and noise',
      branch_timeout=0.6, weight=4)
def _l(S):
    K = Gram(S, 4)
    mean = S.reals('mean', 4, -3, 3)
    g = S.lop.GP(K, mean_func=lambda X: S.array([mean[i] for i in X_ids(X)]))
    y, sg = S.reals('y', 2, -5, 5), S.reals('noise', 2, 0.001, 2.0)
    g.add(ids(S, [2]), S.array([y[1]]), training_sigma=sg[1])
    g.predict(ids(S, [3]))
    how = S.choice('then', 4)
    q, obs = 1, [(0, 0)]
    if how == 0:
        g.reset()
        g.add(ids(S, [0]), S.array([y[0]]), training_sigma=sg[0])
    elif how == 1:                    # more data for the same model
        g.add(ids(S, [0]), S.array([y[0]]), training_sigma=sg[0])
        obs = [(2, 1), (0, 0)]
    elif how == 2:                    # another question
        obs = [(2, 1)]
    else:                             # other kernel parameters
        c = S.real('scale', 0.5, 4.0)
        K.G = [[v * c for v in r] for r in K.G]
        obs = [(2, 1)]
    mu, var = g.predict(ids(S, [q]))
    A = inv([[K.G[a][b] + (sg[i] if a == b else 0) for b, _ in obs] for a, i in obs])
    m, v = mean[q], K.G[q][q]
    for i, (a, ya) in enumerate(obs):
        for j, (b, yb) in enumerate(obs):
            m = m + K.G[q][a] * A[i][j] * (y[yb] - mean[b])
            v = v - K.G[q][a] * A[i][j] * K.G[b][q]
    S.check(S.eq(mu[0], m), 'a model that was used before answers like a new one')
    S.check(S.eq(g.cov[0, 0], v), 'a model that was used before answers like a new one')


@case('C05', 'prior of the kernels', bounds='2 points in [-4,4], any parameters of the RBF and linear kernels')
def _k(S):
    s, l, nz = S.real('s', 0.2, 4.0), S.real('l', 0.2, 4.0), S.real('nz', 0.001, 1.0)
    k = S.lop.RBF_kern(s, l, sigma_noise=nz) if S.boolean('rbf') else S.lop.LinearKern(s, l, nz)
    X = S.reals('x', (2, 1), -4, 4)
    g = S.lop.GP(k)
    mu, var = g.predict(X)
    C = k.cov(X, X)
    for i in range(2):
        S.check(S.eq(var[i], C[i, i]), 'without data the variance is the prior variance')
