"""C20: the linear preference model differentiates its loss exactly."""
from engine.api import case
from harness.c06 import labels


def setup(S, n, d, k, fixed=False, kinds=(True, False, False)):
    m = S.lop.PreferenceLinear()
    s = S.real('sigma', 0.5, 4.0)
    m.probits[0].set_sigma(s)
    X = S.reals('x', (n, d), -1, 1)
    y = [None] * 3
    if kinds[0]:
        prefs = [(-1, 0, 1)] if fixed else labels(S, n, k)
        y[0] = S.np.array(prefs)
    else:
        prefs = []
    if kinds[1]:
        y[1] = (S.np.array([2]), S.np.array([0]))
    if kinds[2]:
        y[2] = (S.np.array([0.25]), S.np.array([n - 1]))
    m.X_train, m.y_train = X, y
    return m, s, X, prefs


def val(X, i, w):
    v = 0
    for j in range(len(w)):
        v = v + X[i, j] * w[j]
    return v


def loss(S, X, prefs, s):
    def f(w):
        t = 0
        for dk, u, v in prefs:
            a, b = (u, v) if dk == -1 else (v, u)
            t = t + S.fn('log', S.fn('ndtr', (val(X, a, w) - val(X, b, w)) / (S.np.sqrt(2) * s)))
        return t
    return f


def deriv(n, d, k, tier, fixed=False):
    @case('C20', 'loss derivatives: %d points, %d features, %d preferences' % (n, d, k), tier=tier, weight=4, branch_timeout=0.6,
          bounds='features in [-1,1], weights in [-2,2], sigma in [0.5,4], %s preferences' % ('given' if fixed else 'any'))
    def h(S):
        m, s, X, prefs = setup(S, n, d, k, fixed)
        w = S.reals('w', d, -2, 2)
        f = loss(S, X, prefs, s)
        S.check(S.eq(m.loss_func(w), f(list(w))), 'the loss is the log-likelihood of the predicted values')
        W, g, ll = m.derivatives(X, m.y_train, w)
        S.check(S.true() if W.shape == (d, d) and len(g) == d else S.false(), 'one derivative per weight')
        S.check(S.eq(ll, f(list(w))), 'derivatives() reports the loss')
        gr = S.gradient(f, list(w))
        for i in range(d):
            S.check(S.eq(g[i], gr[i]), 'the gradient is the derivative of the loss by the weights')
            if S.mode == 'sym':
                hr = S.gradient(lambda t: S.gradient(f, t)[i], list(w))
                for j in range(d):
                    S.check(S.eq(W[i, j], -hr[j]), 'W is the negative Hessian of the loss by the weights')


deriv(2, 1, 1, 'quick')
deriv(2, 2, 1, 'quick')
deriv(3, 2, 1, 'quick', True)
deriv(3, 2, 2, 'thorough')
deriv(2, 3, 1, 'thorough')


class Part:
    """a likelihood with a given gradient and Hessian at the predicted values"""

    def __init__(self, S, n, tag):
        self.S = S
        self.W = S.reals('W' + tag, (n, n), -2, 2)
        self.g = S.reals('g' + tag, n, -2, 2)
        self.l = S.real('l' + tag, -9, 0)
        self.seen = []

    def derivatives(self, y, F):
        self.seen.append(list(F))
        return self.S.array(self.W), self.S.array(self.g), self.l

    def log_likelihood(self, y, F):
        self.seen.append(list(F))
        return self.l


def chain(n, d, every=True):
    @case('C20', 'chain rule' if every else 'chain rule, %d points, %d features' % (n, d),
          bounds='%s data kinds, %d points, %d features in [-1,1], any likelihood derivatives' % ('every combination of' if every else 'all', n, d))
    def h(S):
        chain_rule(S, n, d, [S.boolean('kind%d' % i) for i in range(3)] if every else [True] * 3)


def chain_rule(S, n, d, kinds):
    m = S.lop.PreferenceLinear()
    X = S.reals('x', (n, d), -1, 1)
    m.X_train = X
    m.y_train = [S.np.array([(-1, 0, 1)]) if kinds[0] else None, (S.np.array([2]), S.np.array([0])) if kinds[1] else None,
                 (S.np.array([0.25]), S.np.array([1])) if kinds[2] else None]
    P = [Part(S, n, str(j)) for j in range(3)]
    m.probits = list(P)
    use = [P[j] for j in range(3) if kinds[j]]
    w = S.reals('w', d, -2, 2)
    W, g, ll = m.derivatives(X, m.y_train, w)
    for i in range(d):
        e = 0
        for p in use:
            for a in range(n):
                e = e + p.g[a] * X[a, i]
        S.check(S.eq(g[i], e), 'the gradient is the derivative of the loss by the weights')
        for j in range(d):
            e = 0
            for p in use:
                for a in range(n):
                    for b in range(n):
                        e = e + X[a, i] * p.W[a, b] * X[b, j]
            S.check(S.eq(W[i, j], e), 'W is the negative Hessian of the loss by the weights')
    t = 0
    for p in use:
        t = t + p.l
    S.check(S.eq(ll, t), 'the loss adds up all kinds of data')
    S.check(S.eq(m.loss_func(w), t), 'the loss adds up all kinds of data')
    for p in use:
        for F in p.seen:
            for a in range(n):
                S.check(S.eq(F[a], val(X, a, w)), 'the likelihood is evaluated at the predicted values')


chain(3, 2)
chain(7, 3, False)
chain(4, 5, False)


def opt(n, d, tier):
    @case('C20', 'training steps: %d features' % d, tier=tier, branch_timeout=0.6, weight=3, ctx={'u_low': 0.01},
          bounds='%d points, %d features, any start, up to 2 steps with any result, any likelihood derivatives' % (n, d))
    def h(S):
        m = S.lop.PreferenceLinear()
        X = S.reals('x', (n, d), -1, 1)
        m.X_train = X
        m.y_train = [S.np.array([(-1, 0, 1)]), None, None]
        P = Part(S, n, '')
        m.probits[0] = P
        m.maxloops = 2
        calls = []

        def step(F, *a, **k):
            nm = ('gradient', 'hess', 'loss_func')
            kw = dict(zip(nm, a))
            kw.update(k)
            i = len(calls)
            calls.append((list(F), kw['gradient'], kw['hess'], kw['loss_func']))
            S.check(S.true() if i < 2 else S.false(), 'training stops after the allowed number of steps')
            new = S.reals('s%d' % i, d, -2, 2)
            calls[-1] += (new,)
            return new
        m.newton_update = step
        m.optimize()
        for j, (w, g, H, lf, new) in enumerate(calls):
            if j:
                S.check(S.all([S.eq(w[i], calls[j - 1][4][i]) for i in range(d)]), 'a step starts at the result of the last one')
            for i in range(d):
                e = 0
                for a in range(n):
                    e = e + P.g[a] * X[a, i]
                S.check(S.eq(g[i], e), 'a training step uses the gradient of the loss')
                for q in range(d):
                    e = 0
                    for a in range(n):
                        for b in range(n):
                            e = e + X[a, i] * P.W[a, b] * X[b, q]
                    S.check(S.eq(H[i, q], -e), 'a training step uses the Hessian of the loss')
            S.check(S.eq(lf(S.array(w)), P.l), 'a training step searches along the loss')
        if calls:
            S.check(S.eqv(m.w, calls[-1][4]), 'the trained weights are the result of the last step')
            if len(calls) == 1:
                s2 = 0
                for i in range(d):
                    s2 = s2 + (calls[0][4][i] - calls[0][0][i]) * (calls[0][4][i] - calls[0][0][i])
                S.check(S.ge(m.delta_f * m.delta_f, s2), 'training stops early only when the weights have converged')
        S.check(S.true() if m.optimized else S.false(), 'a trained model is marked as trained')
        Q = S.reals('q', (2, d), -3, 3)
        F, _ = m.predict(Q)
        for i in range(2):
            S.check(S.eq(F[i], val(Q, i, list(m.w))), 'predictions are linear in the features with the trained weights')


opt(2, 2, 'quick')
opt(2, 3, 'thorough')


@case('C20', 'predictions', bounds='3 points, 3 features, any weights; trained, untrained and stale models')
def _p(S):
    m = S.lop.PreferenceLinear()
    kind = S.choice('state', 3)
    d = 3
    trained = []
    w = S.reals('w', d, -3, 3)

    def optimize(*a, **k):
        trained.append(1)
        m.w = w
        m.optimized = True
    if kind:
        m.X_train = S.reals('x', (2, d), -1, 1)
        m.y_train = [S.np.array([(-1, 0, 1)]), None, None]
        if kind == 1:
            m.w, m.optimized = w, True
            m.optimize = optimize
        else:
            m.w = w * 0 + 1
            m.optimize = optimize
    Q = S.reals('q', (3, d), -3, 3)
    F, _ = m.predict(Q)
    S.check(S.true() if len(F) == 3 else S.false(), 'one prediction per point')
    for i in range(3):
        S.check(S.eq(F[i], val(Q, i, list(m.w))), 'predictions are linear in the features with the model weights')
        if kind:
            S.check(S.eq(F[i], val(Q, i, list(w))), 'predictions use the trained weights')
    S.check(S.true() if len(trained) == (1 if kind == 2 else 0) else S.false(), 'a model is trained before it predicts, and only then')
    if kind:
        S.check(S.eqv(m(Q), F), 'calling the model returns the prediction')


@case('C20', 'real training step', bounds='2 points in 1 feature with difference in [0.2,1], any non-zero start', branch_timeout=0.6,
      ctx={'u_low': 0.01})
def _r(S):
    m = S.lop.PreferenceLinear()
    X = S.array([[S.real('a', -1, 1)], [S.const(0)]])
    S.assume(S.any([S.ge(X[0, 0], 0.2), S.ge(-0.2, X[0, 0])]))
    m.add(X, S.np.array([(-1, 0, 1)]))
    m.maxloops = 1
    lam = S.real('lam', 0, 1.5)
    used = []
    m.binary_line_search = lambda *a, **k: used.append(1) or lam
    P = Part(S, 2, '')
    m.probits[0] = P
    S.assume(S.gt(P.W[0, 0], 0.1))
    m.optimize()
    if not used:
        S.cut()
    w0 = P.seen[0][0] / X[0, 0]
    S.check(S.eq(P.W[0, 0] * X[0, 0] * X[0, 0] * (m.w[0] - w0), lam * P.g[0] * X[0, 0]), 'a training step is a Newton step')


@case('C20', 'training again', bounds='2 batches of 2 points, any weights from each training, any queries')
def _again(S):
    m = S.lop.PreferenceLinear()
    d, n = 2, [0]
    ws = [S.reals('w%d' % i, d, -3, 3) for i in range(4)]

    def optimize(*a, **k):
        m.w = ws[n[0]]
        m.optimized = True
        n[0] += 1
    m.optimize = optimize
    Q = S.reals('q', (2, d), -3, 3)

    def judge(k):
        for _ in range(2):
            F, _s = m.predict(Q)
            S.check(S.true() if n[0] == k else S.false(), 'a model is trained once for the data it holds')
            for i in range(2):
                S.check(S.eq(F[i], val(Q, i, list(ws[k - 1]))), 'predictions use the weights of the last training')
    m.add(S.reals('x', (2, d), -1, 1), S.np.array([(-1, 0, 1)]))
    judge(1)
    kind = S.choice('kind', 3)
    X = S.reals('z', (2, d), -1, 1)
    if kind == 0:
        m.add(X, [(1, 0, 1)])
    elif kind == 1:
        m.add(X, S.np.array([1, 2]), type='ordinal')
    else:
        m.add(X, S.reals('v', 2, 0.1, 0.9), type='abs')
    judge(2)
