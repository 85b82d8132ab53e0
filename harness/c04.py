"""C04: training data stays aligned with its labels through every add history.

A ghost copy of the data (points with identities, labels naming identities) is
kept next to the model; after every operation the model must describe the same
labelled points."""
from engine.api import case

KINDS = ('relative_discrete', 'ordinal', 'abs')


class Ghost:
    def __init__(self, S, m, dim=2, lo=-5, hi=5):
        self.S, self.m, self.dim = S, m, dim
        self.lo, self.hi = lo, hi
        self.pts = []        # (uid, coordinates) in storage order
        self.pairs, self.ord, self.abs = [], [], []
        self.prior = []
        self.n = 0

    def new(self, k):
        X = self.S.reals('x', (k, self.dim), self.lo, self.hi)
        return X, self.grow(X)

    def grow(self, X):
        ids = []
        for i in range(X.shape[0]):
            ids.append(self.n)
            self.pts.append((self.n, [X[i, j] for j in range(self.dim)]))
            self.n += 1
        return ids

    def dominance(self, ids):
        """pairs a model with dominance preferences adds for new points"""
        if len(self.pts) < 2:
            return
        at = dict(self.pts)
        for i in ids:
            for j, q in self.pts:
                if j != i and all(bool(a > b) for a, b in zip(at[i], q)):
                    self.pairs.append((-1, i, j))

    def prune(self):
        used = {i for _, a, b in self.pairs for i in (a, b)} | {i for _, i in self.ord} | {i for _, i in self.abs}
        self.pts = [p for p in self.pts if p[0] in used]
        self.prior = [i for i in self.prior if i in used]

    def clear(self):
        self.pts, self.pairs, self.ord, self.abs, self.prior = [], [], [], [], []

    def judge(self, what=''):
        S, m = self.S, self.m
        X = m.X_train
        n = 0 if X is None else len(X)
        S.check(S.true() if n == len(self.pts) else S.false(), 'the model holds exactly the points it was given' + what)
        if n != len(self.pts):
            return
        for i, (u, q) in enumerate(self.pts):
            S.check(S.all([S.eq(X[i, j], q[j], 0) for j in range(self.dim)]), 'points keep their coordinates' + what)
        pos = {u: i for i, (u, q) in enumerate(self.pts)}
        y = m.y_train[m.probit_idxs['relative_discrete']]
        got = [] if y is None else sorted(tuple(int(t) for t in p) for p in y)
        want = sorted((d, pos[a], pos[b]) for d, a, b in self.pairs)
        S.check(S.true() if got == want else S.false(), 'comparisons refer to the points they were given for' + what)
        y = m.y_train[m.probit_idxs['ordinal']]
        got = [] if y is None else sorted(zip([int(v) for v in y[0]], [int(i) for i in y[1]]))
        want = sorted((r, pos[i]) for r, i in self.ord)
        S.check(S.true() if got == want else S.false(), 'ratings refer to the points they were given for' + what)
        y = m.y_train[m.probit_idxs['abs']]
        got = [] if y is None else list(zip(y[0], [int(i) for i in y[1]]))
        want = [(v, pos[i]) for v, i in self.abs]
        ok = sorted(i for _, i in got) == sorted(i for _, i in want)
        S.check(S.true() if ok else S.false(), 'scores refer to the points they were given for' + what)
        if ok:
            for p in set(i for _, i in want):
                a = [v for v, i in got if i == p]
                b = [v for v, i in want if i == p]
                S.check(S.all([S.eq(s, t) for s, t in zip(a, b)]), 'scores keep their values' + what)
        pp = m.get_prior_pts()
        k = 0 if pp is None else len(pp)
        S.check(S.true() if k == len(self.prior) else S.false(), 'the prior points are those that were added as prior' + what)
        if k == len(self.prior):
            at = dict(self.pts)
            for r, u in enumerate(self.prior):
                S.check(S.all([S.eq(pp[r, j], at[u][j], 0) for j in range(self.dim)]),
                        'the prior points are those that were added as prior' + what)


def add_pairs(S, m, G, k=2, pairs=1, empty=False):
    X, ids = G.new(k)
    prs = []
    for _ in range(pairs):
        a = S.choice('first', k)
        b = (a + 1 + (S.choice('second', k - 1) if k > 2 else 0)) % k
        d = -1 if S.boolean('first wins') else 1
        prs.append((d, a, b))
    m.add(X, prs)
    G.pairs += [(d, ids[a], ids[b]) for d, a, b in prs]
    return ids


def add_ord(S, m, G, k=2):
    X, ids = G.new(k)
    r = [1 + S.choice('rating', 3) for _ in range(k)]
    m.add(X, S.np.array(r) if S.boolean('array') else r, type='ordinal')
    G.ord += list(zip(r, ids))
    return ids


def add_abs(S, m, G, k=1):
    X, ids = G.new(k)
    v = S.reals('v', k, 0.001, 0.999)
    m.add(X, v, type='abs')
    G.abs += [(v[i], ids[i]) for i in range(k)]
    return ids


OPS = (add_pairs, add_ord, add_abs)


def model(S, **k):
    return S.lop.PreferenceModel(**k)


def history(n, tier='quick'):
    @case('C04', 'history of %d additions' % n, tier=tier, weight=n, validate=8,
          bounds='any order of comparison, rating and score batches of 1 or 2 points with any labels and coordinates')
    def h(S):
        m = model(S)
        G = Ghost(S, m)
        for i in range(n):
            OPS[S.choice('kind', 3)](S, m, G)
            if S.boolean('reset') and i < n - 1:
                m.reset()
                G.clear()
        S.check(S.false() if m.optimized else S.true(), 'new data asks for a new fit')
        G.judge()


history(1)
history(2)
history(3, 'thorough')


def kinds(seq, tier='quick'):
    @case('C04', 'history ' + ', '.join(f.__name__[4:] for f in seq), tier=tier, validate=6, weight=2,
          bounds='any labels and coordinates')
    def h(S):
        m = model(S)
        G = Ghost(S, m)
        for f in seq:
            f(S, m, G, k=2 if f is not add_abs else 1)
        G.judge()


kinds((add_pairs, add_ord, add_pairs))
kinds((add_abs, add_pairs, add_abs))
kinds((add_ord, add_abs, add_ord))
kinds((add_pairs, add_pairs, add_pairs))
kinds((add_abs, add_abs, add_ord, add_pairs))


@case('C04', 'several comparisons of one batch', bounds='3 points, 2 comparisons, then 3 points, 1 comparison')
def _sev(S):
    m = model(S)
    G = Ghost(S, m)
    add_pairs(S, m, G, 3, 2)
    add_pairs(S, m, G, 3, 1)
    G.judge()


@case('C04', 'points without comparisons', bounds='1 or 2 unlabelled points before and after a comparison')
def _un(S):
    m = model(S)
    G = Ghost(S, m)
    if S.boolean('before'):
        X, ids = G.new(1)
        m.add(X, [])
    add_pairs(S, m, G)
    X, ids = G.new(2)
    m.add(X, [])
    G.judge()
    if S.boolean('more'):
        add_pairs(S, m, G)
        G.judge()


def explicit(kind):
    @case('C04', 'explicit indices: %s' % kind, bounds='2 points, 2 labels naming any of the new points, after 0 or 2 earlier points')
    def h(S):
        m = model(S)
        G = Ghost(S, m)
        if S.boolean('earlier'):
            OPS[S.choice('kind', 3)](S, m, G)
        X, ids = G.new(2)
        ix = [S.choice('i', 2), S.choice('i', 2)]
        if kind == 'ordinal':
            r = [1 + S.choice('rating', 2) for _ in range(2)]
            m.add(X, S.np.array(list(zip(r, ix))), type='ordinal')
            G.ord += [(r[k], ids[ix[k]]) for k in range(2)]
        else:
            v = S.reals('v', 2, 0.001, 0.999)
            m.add(X, (v, S.np.array(ix)), type='abs')
            G.abs += [(v[k], ids[ix[k]]) for k in range(2)]
        G.judge()


explicit('ordinal')
explicit('abs')


@case('C04', 'clipping of extreme scores', bounds='any score in [0,1]')
def _clip(S):
    m = model(S)
    G = Ghost(S, m)
    if S.boolean('earlier'):
        add_abs(S, m, G)
    X, ids = G.new(1)
    v = S.reals('v', 1, 0, 1)
    m.add(X, v, type='abs')
    c = S.const(1, 1000)
    e = S.ite(S.ge(v[0], c, 0), S.ite(S.ge(1 - c, v[0], 0), v[0], 1 - c), c)
    G.abs.append((e, ids[0]))
    G.judge()


@case('C04', 'rejected additions', bounds='any earlier data; a rating below 1 or a score outside [0,1]')
def _rej(S):
    m = model(S)
    G = Ghost(S, m)
    if S.boolean('earlier'):
        OPS[S.choice('kind', 3)](S, m, G)
    m.optimized = True
    X = S.reals('bad', (2, 2), -5, 5)
    if S.boolean('rating'):
        r = [1, 1]
        r[S.choice('which', 2)] = S.choice('bad rating', 3) - 2
        ok = S.expect_raises(lambda: m.add(X, S.np.array(r), type='ordinal'), Exception)
    else:
        v = S.reals('v', 2, -3, 3)
        S.assume(S.any([v[0] < -0.001, v[0] > 1.001, v[1] < -0.001, v[1] > 1.001]))
        ok = S.expect_raises(lambda: m.add(X, v, type='abs'), ValueError)
    S.check(S.true() if ok else S.false(), 'invalid labels are rejected')
    G.judge(' after a rejected addition')
    if S.boolean('later'):
        OPS[S.choice('kind', 3)](S, m, G)
        G.judge(' after a rejected addition')


def pareto(first, second, dim, tier='quick'):
    @case('C04', 'dominance preferences: %d then %d points, %d objectives' % (first, second, dim), tier=tier, validate=8,
          bounds='any coordinates, ties included', weight=first + second)
    def h(S):
        m = model(S, pareto_pairs=True)
        G = Ghost(S, m, dim)
        for k in (first, second):
            if k:
                X, ids = G.new(k)
                m.add(X, [])
                G.dominance(ids)
        G.judge()


pareto(1, 1, 2)
pareto(2, 0, 2)
pareto(2, 1, 2)
pareto(1, 1, 3)
pareto(1, 2, 1)
pareto(2, 2, 2, 'thorough')


@case('C04', 'dominance preferences next to given labels', bounds='a labelled batch of any kind, then 1 point', validate=8)
def _pl(S):
    m = model(S, pareto_pairs=True)
    G = Ghost(S, m)
    ids = OPS[S.choice('kind', 3)](S, m, G)
    G.dominance(ids)
    X, ids = G.new(1)
    m.add(X, [])
    G.dominance(ids)
    G.judge()


def prior(before, n, after, tier='quick', method='exact'):
    @case('C04', 'prior: %s, %d %s prior points%s' % (before or 'no data', n, method, ', then ' + after if after else ''),
          tier=tier, validate=8, weight=n + 2, bounds='any coordinates', branch_timeout=1.0)
    def h(S):
        m = model(S, pareto_pairs=True)
        G = Ghost(S, m)
        seq = {'comparisons': add_pairs, 'ratings': add_ord, 'scores': add_abs}
        if before == 'unlabelled':
            X, ids = G.new(1)
            m.add(X, [])
            G.dominance(ids)
        elif before:
            ids = seq[before](S, m, G, k=1 if before != 'comparisons' else 2)
            G.dominance(ids)
        if method == 'exact':
            P = S.reals('p', (n, 2), -5, 5)
            m.add_prior(S.np.array([[0., 1.], [0., 1.]]), n, method='exact', pts=P)
        else:
            lo, hi = S.reals('lo', 2, -2, 0), S.reals('hi', 2, 1, 3)
            m.add_prior(S.array([[lo[0], hi[0]], [lo[1], hi[1]]]), n)
            u = [v for k, v in S.draws if k == 'u']
            P = S.array([[u[2 * i + j] * (hi[j] - lo[j]) + lo[j] for j in range(2)] for i in range(n)])
            if n > 2:
                for j in range(2):
                    P[0, j] = lo[j]
                    P[1, j] = hi[j]
        ids = G.grow(P)
        G.prior = list(ids)
        G.dominance(ids)
        G.prune()
        G.judge(' after adding a prior')
        if after:
            ids = seq[after](S, m, G, k=1 if after != 'comparisons' else 2)
            G.dominance(ids)
            G.judge(' after adding a prior')


prior('', 2, '')
prior('', 3, '', 'quick', 'random')
prior('scores', 2, '')
prior('ratings', 2, '')
prior('comparisons', 1, '')
prior('unlabelled', 2, '')
prior('', 2, 'scores')
prior('scores', 1, 'ratings')
prior('', 3, '', 'thorough')
prior('comparisons', 2, 'scores', 'thorough')


@case('C04', 'removal of unreferenced points', bounds='3 points of which any subset is labelled', validate=8)
def _rm(S):
    m = model(S)
    G = Ghost(S, m)
    for i in range(3):
        k = S.choice('label', 3)
        X, ids = G.new(1)
        if k == 0:
            m.add(X, [])
        elif k == 1:
            m.add(X, S.np.array([2 + i]), type='ordinal')
            G.ord.append((2 + i, ids[0]))
        else:
            v = S.reals('v', 1, 0.001, 0.999)
            m.add(X, v, type='abs')
            G.abs.append((v[0], ids[0]))
    if S.boolean('compare'):
        add_pairs(S, m, G)
    m.remove_without_reference(remove_prior=False)
    G.prune()
    G.judge(' after removing unreferenced points')


@case('C04', 'reset after a prior', bounds='any prior of 2 points with or without dominance, then any new data and prior', validate=8, branch_timeout=1.0)
def _rp(S):
    m = model(S, pareto_pairs=True)
    G = Ghost(S, m)
    P = S.reals('p', (2, 2), -5, 5)
    m.add_prior(S.np.array([[0., 1.], [0., 1.]]), 2, method='exact', pts=P)
    m.reset()
    G.clear()
    G.judge(' after a reset')
    ids = OPS[S.choice('kind', 3)](S, m, G, k=2)
    G.dominance(ids)
    G.judge(' after a reset')


def long_history(steps, dim, prune):
    @case('C04', 'long history of %d batches, %d objectives%s' % (steps, dim, ', pruned on the way' if prune else ''), validate=2,
          bounds='fixed kinds, sizes and references, any coordinates and score values')
    def h(S):
        m = model(S)
        G = Ghost(S, m, dim)
        for t in range(steps):
            k = 1 + (3 * t + 2) % 5
            kind = (t * t + t // 3) % 4
            X, ids = G.new(k)
            if kind == 0 and k > 1:
                prs = [(-1 if (i + t) % 2 else 1, i, (i + 1 + t % (k - 1)) % k) for i in range(k)]
                m.add(X, prs if t % 2 else S.np.array(prs))
                G.pairs += [(d, ids[a], ids[b]) for d, a, b in prs]
            elif kind == 1:
                r = [1 + (i + t) % 5 for i in range(k)]
                m.add(X, r if t % 2 else S.np.array(r), type='ordinal')
                G.ord += list(zip(r, ids))
            elif kind == 2:
                ix = [(2 * i + t) % k for i in range(k + 1)]
                v = S.reals('v', k + 1, 0.001, 0.999)
                m.add(X, (v, S.np.array(ix)), type='abs')
                G.abs += [(v[i], ids[j]) for i, j in enumerate(ix)]
            elif kind == 3:
                ix = [(3 * i + t) % k for i in range(k + 2)]
                r = [1 + (i + t) % 4 for i in range(k + 2)]
                m.add(X, S.np.array(list(zip(r, ix))), type='ordinal')
                G.ord += [(a, ids[j]) for a, j in zip(r, ix)]
            else:
                m.add(X, [])
            if prune and t % 4 == 3:
                m.remove_without_reference(remove_prior=False)
                G.prune()
        G.judge()


long_history(6, 2, False)
long_history(12, 3, False)
long_history(9, 1, True)
long_history(16, 2, True)
