"""C03: query selection returns a valid, fresh, complete set of candidates."""
from engine.api import case


def subset(S, name, n):
    return [i for i in range(n) if S.boolean('%s%d' % (name, i))]


def checked(S, sel, n, k, prev, pref, nots=None):
    """what every selection has to satisfy"""
    ok = lambda b, lab: S.check(S.true() if b else S.false(), lab)
    ok(all(int(i) == i and 0 <= int(i) < n for i in sel), 'every selected index is a candidate')
    sel = [int(i) for i in sel]
    S.observe('sel', sel)
    ok(len(sel) == k, 'the requested number of points is selected')
    ok(len(set(sel)) == len(sel), 'no candidate is selected twice')
    ok(not set(sel) & set(prev), 'previously selected points are not selected again')
    fresh = set(pref) - set(prev)
    ok(len(set(sel) & fresh) == min(len(fresh), k), 'preferred points are used before any other')
    if nots is not None:
        nots = [int(i) for i in nots]
        S.observe('not selected', nots)
        ok(all(0 <= i < n for i in nots) and len(set(nots)) == len(nots), 'points passed over are distinct candidates')
        ok(not set(nots) & (set(sel) | set(prev)), 'points passed over were not selected')
        ok(not set(nots) & set(pref), 'points passed over are not preferred ones')
    return sel


class Dummy:
    """a model: only its predictions are used"""
    X_train = None

    def __init__(self, mu, data=None):
        self.mu, self.data = mu, data

    def predict(self, X):
        return self.mu[:len(X)], self.data


def learner(S, n, pair, **kw):
    """the selection loop with a learner that may pick any allowed candidate, or any allowed pair"""
    L = S.lop.active_learning.ActiveLearner

    class Any(L):
        def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
            ind = sorted(indicies)
            S.check(S.true() if ind and all(0 <= i < n for i in ind) and not set(ind) & set(prev_selection) else S.false(),
                    'the learner chooses among fresh candidates')
            return ind[S.choice('pick', len(ind))] if len(ind) > 1 else ind[0]

    class Pair(Any):
        def select_pair(self, candidate_pts, mu, data, indicies, prev_selection):
            ind = sorted(indicies)
            S.check(S.true() if len(ind) > 1 and all(0 <= i < n for i in ind) and not set(ind) & set(prev_selection) else S.false(),
                    'a pair is chosen among at least two fresh candidates')
            i = ind[S.choice('first', len(ind))]
            ind.remove(i)
            return (i, ind[S.choice('second', len(ind))] if len(ind) > 1 else ind[0])
    return (Pair if pair else Any)(**kw)


def points(S, n, d=2):
    return S.array([[S.const(i * (j + 1), 7) for j in range(d)] for i in range(n)])


def loop(n, pair, nots, tier):
    @case('C03', 'any learner: %d candidates%s%s' % (n, ', pairs' if pair else '', ', passed-over points reported' if nots else ''),
          tier=tier, weight=n ** 3,
          bounds='%d candidates, every previously selected and preferred subset, every request size, every choice of the learner' % n)
    def h(S):
        pref, prev = subset(S, 'pref', n), subset(S, 'prev', n)
        k = 1 + S.choice('k', n + 1)
        l = learner(S, n, pair)
        l.set_model(Dummy(S.array([S.const(0)] * n)))
        form = S.choice('form', 2) if n < 3 else 0
        args = (points(S, n), k, list(prev), list(pref) if form else set(pref))
        if n - len(prev) < k:
            S.check(S.true() if S.expect_raises(lambda: l.select(*args, return_not_selected=nots), Exception) else S.false(),
                    'too few candidates are reported, not padded')
            return
        r = l.select(*args, return_not_selected=nots)
        r, ns = r if nots else (r, None)
        checked(S, r, n, k, prev, pref, ns)


for _n, _t in ((1, 'quick'), (2, 'quick'), (3, 'quick'), (4, 'thorough')):
    for _p in (False, True):
        for _r in (False, True):
            loop(_n, _p, _r, _t)


def forms(n, tier):
    @case('C03', 'ways of stating the preferred points: %d candidates' % n, tier=tier,
          bounds='number of leading points, list, set, none, Pareto front of any %d points in 2 objectives' % n)
    def h(S):
        X = S.reals('x', (n, 2), 0, 1)
        dp = S.boolean('default to pareto')
        l = learner(S, n, False, default_to_pareto=dp)
        l.set_model(Dummy(S.array([S.const(0)] * n)))
        f = S.choice('form', 4)
        par = [i for i in range(n) if not any(bool(S.all([S.ge(X[j, k], X[i, k], 0) for k in range(2)]))
                                              and not bool(S.all([S.eq(X[j, k], X[i, k], 0) for k in range(2)]))
                                              for j in range(n) if j != i)] if f in (1, 2) and (dp or f == 2) else None
        if par is not None:      # duplicated points: one of them is kept
            kept = []
            for i in par:
                if not any(bool(S.all([S.eq(X[i, k], X[j, k], 0) for k in range(2)])) for j in kept):
                    kept.append(i)
            if len(kept) != len(par):
                S.cut()
        if f == 0:
            m = S.choice('leading', n + 1)
            r, want = l.select(X, 1, [], m), (range(m) if m else range(n))
        elif f == 1:
            r, want = l.select(X, 1, []), (par if dp else range(n))
        elif f == 2:
            r, want = l.select(X, 1, [], 'pareto'), par
        else:
            S.check(S.true() if S.expect_raises(lambda: l.select(X, 1, [], -1), ValueError) else S.false(),
                    'a negative number of preferred points is refused')
            return
        checked(S, r, n, 1, [], list(want))


forms(2, 'quick')
forms(3, 'quick')


def best(n, tier):
    @case('C03', 'the best preferred point is always included: %d candidates' % n, tier=tier,
          bounds='any predicted means (ties included), preferred subsets, request sizes')
    def h(S):
        mu = S.reals('mu', n, -5, 5)
        pref = subset(S, 'pref', n)
        k = 1 + S.choice('k', n)
        pair, nots = S.boolean('pairs'), S.boolean('report')
        l = learner(S, n, pair, always_select_best=True)
        l.set_model(Dummy(mu))
        r = l.select(points(S, n), k, [], set(pref), return_not_selected=nots)
        r, ns = r if nots else (r, None)
        r = checked(S, r, n, k, [], pref, ns)
        for j in (pref or range(n)):
            S.check(S.ge(mu[r[0]], mu[j]), 'the first point is the best preferred one')


best(2, 'quick')
best(3, 'quick')


@case('C03', 'a learner that can only ask about one point', bounds='3 candidates, any preferred subset and request size')
def _one(S):
    n = 3
    pref, prev = subset(S, 'pref', n), subset(S, 'prev', n)
    if len(prev) == n:
        S.cut()
    nots = S.boolean('report')
    l = learner(S, n, False)
    l.max_num_alts = 1
    l.set_model(Dummy(S.array([S.const(0)] * n)))
    r = l.select(points(S, n), 1 + S.choice('k', 3), list(prev), set(pref), return_not_selected=nots)
    r, ns = r if nots else (r, None)
    checked(S, r, n, 1, prev, pref, ns)


def gp(S, n, d=2):
    """a preference GP whose predictions are arbitrary"""
    m = S.lop.PreferenceGP(S.lop.RBF_kern(0.5, 0.7))
    m.X_train = points(S, 4)
    mu = S.reals('mu', n, -3, 3)
    var = S.reals('var', n, 0.01, 4)
    m.predict = lambda X: (mu[:len(X)], var[:len(X)])
    m.cov = S.array([[var[i] if i == j else S.const(0) for j in range(n)] for i in range(n)])
    return m, mu, var


def real(name, n, tier, mk, prep=None, ks=(1, 2), **kw):
    @case('C03', '%s: %d candidates' % (name, n), tier=tier, weight=n * n * (3 if prep else 1),
          bounds='any predicted means and variances (ties included), every preferred subset, one previously selected point or none',
          **kw)
    def h(S):
        A = S.lop.active_learning
        m, mu, var = gp(S, n)
        pref = subset(S, 'pref', n)
        prev = [0] if S.boolean('prev') else []
        k = ks[S.choice('k', len(ks))]
        nots = S.boolean('report')
        l = mk(A, S)
        l.set_model(m)
        if prep:
            prep(S, l, m, n, mu)
        r = l.select(points(S, n), k, list(prev), set(pref), return_not_selected=nots)
        r, ns = r if nots else (r, None)
        checked(S, r, n, k, prev, pref, ns)


for _n, _t in ((3, 'quick'), (4, 'thorough')):
    real('upper confidence bound', _n, _t, lambda A, S: A.UCBLearner(S.real('alpha', 0, 3)))
    real('best mean', _n, _t, lambda A, S: A.BestLearner())
    real('worst mean', _n, _t, lambda A, S: A.WorstLearner())
    real('random', _n, _t, lambda A, S: A.RandomLearner())
    real('generalised variance', _n, _t, lambda A, S: A.GV_UCBLearner(S.real('alpha', 0, 3)))


def sampled(S, l, m, n, mu):
    """the alignments of the two reward samples are arbitrary"""
    M = 2
    l.M = M
    f = S.reals('align', 3, -1, 1)
    l.alignment = lambda all_rep, Q_rep=None: S.array([[f[0], f[1]], [f[1], f[2]]])
    l.get_representative_Q = lambda *p, **q: (points(S, 4), [[0, 1]])
    l.get_samples_from_model = lambda *p, **q: (S.array([[S.const(0)] * 4] * M), S.array([[S.const(w)] * n for w in range(M)]))
    P = []
    for w in range(M):
        T = [[S.const(1, 2)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                T[i][j] = S.const(2 + 5 * w + 3 * i + 7 * j * (w + 1), 41)
                T[j][i] = 1 - T[i][j]
        P.append(S.array(T))
    it = [0]

    def pairs(F):
        it[0] += 1
        return P[(it[0] - 1) % M]
    m.probits[0].likelihood_all_pairs = pairs


real('acquisition', 3, 'quick', lambda A, S: A.AcquisitionSelection(), sampled, budget=200)


@case('C03', 'acquisition before any data', bounds='3 candidates, any draws, preferred subsets')
def _nodata(S):
    A = S.lop.active_learning
    n = 3
    m, mu, var = gp(S, n)
    m.X_train = None
    pref = subset(S, 'pref', n)
    prev = [0] if S.boolean('prev') else []
    k = 1 + S.choice('k', 2)
    nots = S.boolean('report')
    l = A.AcquisitionSelection(M=2)
    l.set_model(m)
    r = l.select(points(S, n), k, list(prev), set(pref), return_not_selected=nots)
    r, ns = r if nots else (r, None)
    checked(S, r, n, k, prev, pref, ns)


@case('C03', 'Bayesian information gain before any data', bounds='3 candidates, any draws, preferred subsets')
def _bayes0(S):
    A = S.lop.active_learning
    n = 3
    S.approxcdf = lambda *a, **k: S.const(1, 2)
    m, mu, var = gp(S, n)
    m.X_train = None
    pref = subset(S, 'pref', n)
    k = 1 + S.choice('k', 2)
    nots = S.boolean('report')
    l = A.BayesInfoGain()
    l.set_model(m)
    r = l.select(points(S, n), k, [], set(pref), return_not_selected=nots)
    r, ns = r if nots else (r, None)
    checked(S, r, n, k, [], pref, ns)
