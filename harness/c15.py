"""C15: cross-validation splits partition the data and keep labels aligned."""
from engine.api import case


def judge(S, f, N, k):
    k = min(k, N // 2)
    if k < 2:
        S.check(S.true() if f is None else S.false(), 'too few points for two folds give no split')
        return
    S.check(S.true() if f is not None and len(f) == k else S.false(), 'the requested number of folds')
    if f is None:
        return
    allof = sorted(int(i) for s in f for i in s)
    S.check(S.true() if allof == list(range(N)) else S.false(), 'every point is in exactly one fold')
    z = [len(s) for s in f]
    S.check(S.true() if max(z) - min(z) <= 1 else S.false(), 'fold sizes differ by at most one')


def free(N, k, np_, tier='quick'):
    @case('C15', 'folds: %d points, %d folds, %d arbitrary comparisons' % (N, k, np_), tier=tier, validate=8, weight=N,
          bounds='every outcome of the random draws and shuffles, every pair of points per comparison')
    def h(S):
        X = S.reals('x', (N, 1), -5, 5)
        prs = []
        for i in range(np_):
            a = S.choice('a', N)
            b = (a + 1 + S.choice('b', N - 1)) % N
            prs.append((1, a, b))
        judge(S, S.lop.utilities.training_utility.k_fold_x_y(X, [prs if np_ else None, None, None], k), N, k)


def groups(N, k, prs, tier='quick'):
    @case('C15', 'folds: %d points, %d folds, comparisons %s' % (N, k, prs), tier=tier, validate=8, weight=N,
          bounds='every outcome of the random draws and shuffles')
    def h(S):
        X = S.reals('x', (N, 1), -5, 5)
        judge(S, S.lop.utilities.training_utility.k_fold_x_y(X, [[(1,) + p for p in prs], None, None], k), N, k)


free(3, 2, 1)
free(4, 2, 0)
free(4, 2, 1)
free(4, 2, 2)
free(5, 2, 1)
free(5, 3, 0)
free(4, 3, 2, 'thorough')
free(6, 3, 1, 'thorough')
groups(6, 2, [(0, 1), (0, 2), (3, 4), (3, 5)])
groups(6, 3, [(0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5)])
groups(7, 3, [(0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5)])
groups(7, 3, [(0, 1), (2, 3), (4, 5)], 'thorough')
groups(8, 3, [(0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5), (6, 7)], 'thorough')


def sub(S, N, keep_order=False):
    """any list of distinct indices"""
    m = S.choice('how many', N) + 1
    left = list(range(N))
    return [left.pop(S.choice('keep', len(left))) for _ in range(m)]


def reindex(N, np_, nr, ns, tier='quick', tuples=False):
    @case('C15', 'reindex: %d points, %d comparisons, %d ratings, %d scores' % (N, np_, nr, ns), tier=tier, validate=8,
          bounds='any subset of the points in any order, any label values, any points referred to', weight=N + nr + ns)
    def h(S):
        ix = sub(S, N)
        prs, rts, scs = [], [], []
        for i in range(np_):
            a = S.choice('a', N)
            b = (a + 1 + S.choice('b', N - 1)) % N
            prs.append((S.real('dk', -1, 1), a, b))
        for i in range(nr):
            rts.append((S.real('r', 1, 5), S.choice('ri', N)))
        for i in range(ns):
            scs.append((S.real('s', 0, 1), S.choice('si', N)))

        def col(l):
            return None if not l else (S.array([v for v, _ in l]), S.np.array([i for _, i in l]))
        y = S.lop.utilities.training_utility.get_y_with_idx([S.array(prs) if np_ else None, col(rts), col(scs)], ix)
        S.check(S.true() if len(y) == 3 else S.false(), 'one entry per kind of label')
        want = [(d, ix.index(a), ix.index(b)) for d, a, b in prs if a in ix and b in ix]
        if not want:
            S.check(S.true() if y[0] is None else S.false(), 'no comparison survives')
        else:
            S.check(S.true() if y[0] is not None and len(y[0]) == len(want) else S.false(),
                    'exactly the comparisons between kept points survive')
            for got, w in zip(y[0] if y[0] is not None else [], want):
                S.check(S.all([S.eq(g, q) for g, q in zip(got, w)]), 'a comparison keeps its answer and its points')
        for yk, l in ((y[1], rts), (y[2], scs)):
            want = [(v, ix.index(i)) for v, i in l if i in ix]
            if not want:
                S.check(S.true() if yk is None else S.false(), 'no label survives')
                continue
            S.check(S.true() if yk is not None and len(yk[0]) == len(want) and len(yk[1]) == len(want) else S.false(),
                    'exactly the labels of kept points survive')
            if yk is None:
                continue
            for v, i, w in zip(yk[0], yk[1], want):
                S.check(S.all([S.eq(v, w[0]), S.eq(i, w[1])]), 'a label keeps its value and its point')


reindex(3, 1, 0, 0)
reindex(3, 2, 0, 0)
reindex(3, 0, 2, 1)
reindex(3, 1, 1, 1)
reindex(3, 0, 0, 2)
reindex(4, 2, 0, 0, 'thorough')
reindex(3, 1, 2, 1, 'thorough')


def spread(N, k, prs, start, step):
    @case('C15', 'folds: %d points, %d folds, %d comparisons, one order of the draws (%d,%d)' % (N, k, len(prs), start, step), validate=2,
          bounds='one outcome of the random draws, any points')
    def h(S):
        X = S.reals('x', (N, 1), -5, 5)
        n = [start]

        def randint(lo, hi=None, size=None):
            n[0] += step
            return n[0] % hi if hi is not None else n[0] % lo
        def choice(a, *r, **k):
            i = randint(a if isinstance(a, int) else len(a))
            return i if isinstance(a, int) else a[i]
        S.swap(S.np.random, 'randint', randint)
        S.swap(S.np.random, 'choice', choice)
        judge(S, S.lop.utilities.training_utility.k_fold_x_y(X, [prs, None, None], k), N, k)


CHAIN = [(1, i, (i * 5 + 3) % 17) for i in range(17) if i != (i * 5 + 3) % 17]
CLIQUE = [(1, i, j) for i in range(7) for j in range(i)] + [(1, 16, 3)]
for _k in (2, 3, 4, 5, 8):
    spread(17, _k, CHAIN[:_k + 1], 0, 5)
    spread(17, _k, CLIQUE[:4], 3, 7)


def reindex_many(N, ix):
    @case('C15', 'reindex: %d of %d points, many labels' % (len(ix), N), validate=2, bounds='fixed subset and references, any label values')
    def h(S):
        prs = [(S.real('dk', -1, 1), i % N, (3 * i + 1) % N) for i in range(2 * N) if i % N != (3 * i + 1) % N]
        rts = [(S.real('r', 1, 5), (5 * i + 2) % N) for i in range(N + 3)]
        scs = [(S.real('s', 0, 1), (7 * i) % N) for i in range(N + 2)]
        y = S.lop.utilities.training_utility.get_y_with_idx(
            [S.array(prs), (S.array([v for v, _ in rts]), S.np.array([i for _, i in rts])),
             (S.array([v for v, _ in scs]), S.np.array([i for _, i in scs]))], list(ix))
        want = [(d, ix.index(a), ix.index(b)) for d, a, b in prs if a in ix and b in ix]
        S.check(S.true() if y[0] is not None and len(y[0]) == len(want) else S.false(), 'exactly the comparisons between kept points survive')
        for got, w in zip(y[0], want):
            S.check(S.all([S.eq(g, q) for g, q in zip(got, w)]), 'a comparison keeps its answer and its points')
        for yk, l in ((y[1], rts), (y[2], scs)):
            want = [(v, ix.index(i)) for v, i in l if i in ix]
            S.check(S.true() if yk is not None and len(yk[0]) == len(want) and len(yk[1]) == len(want) else S.false(),
                    'exactly the labels of kept points survive')
            for v, i, w in zip(yk[0], yk[1], want):
                S.check(S.all([S.eq(v, w[0]), S.eq(i, w[1])]), 'a label keeps its value and its point')


reindex_many(11, [7, 2, 9, 0, 4, 10])
reindex_many(14, [13, 1, 12, 3, 5, 0, 8, 6, 11])
