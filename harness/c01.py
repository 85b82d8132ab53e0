"""C01: preference pairs say exactly what the compared values say."""
from engine.api import case

B = 'values: all reals; points n = %s'


def lead(S, u, v):
    """the pair code for values u, v: -1 first at least as good, +1 second better"""
    return S.ge(u, v, 0)


def mk_dk():
    @case('C01', 'get_dk on two scalars', bounds='all real pairs')
    def h(S):
        u, v = S.real('u'), S.real('v')
        d = S.lop.get_dk(u, v)
        S.observe('dk', d)
        S.check(S.any([S.all([S.eq(d, -1), S.ge(u, v, 0)]), S.all([S.eq(d, 1), S.not_(S.ge(u, v, 0))])]),
                'get_dk is -1 when the first value is at least the second, +1 otherwise')
        d2 = S.lop.get_dk(v, u)
        S.check(S.any([S.eq(d, -d2), S.eq(u, v, 0)]), 'swapping different arguments flips the preference')

    @case('C01', 'get_dk rejects sequences', bounds='lists, tuples, arrays')
    def h2(S):
        u = S.real('u')
        arr = S.array([u, u])
        for a, b in (([1, 2], u), (u, (1, 2)), (arr, u), (u, arr)):
            S.check(S.true() if S.expect_raises(lambda: S.lop.get_dk(a, b), TypeError) else S.false(),
                    'a sequence is not accepted as a scalar value')


mk_dk()


def mk(n, tier):
    @case('C01', 'ranked_pairs_from_fake n=%d' % n, tier=tier, bounds=B % n)
    def h(S):
        Y = S.reals('y', n)
        X = S.reals('x', (n, 1))
        seen = []

        def f(x, *a, **k):
            seen.append(len(x))
            return Y
        ps = S.lop.ranked_pairs_from_fake(X, f)
        S.observe('n', len(ps))
        want = {(i, j) for i in range(n) for j in range(i + 1, n)}
        S.check(S.true() if {tuple(sorted((int(p[1]), int(p[2])))) for p in ps} == want and len(ps) == len(want)
                else S.false(), 'every pair of points is compared exactly once')
        for d, i, j in ps:
            S.check(S.any([S.all([S.eq(d, -1), S.ge(Y[i], Y[j], 0)]), S.all([S.eq(d, 1), S.gt(Y[j], Y[i], 0)])]),
                    'each generated pair agrees with the values')

    @case('C01', 'generate_fake_pairs n=%d' % n, tier=tier, bounds=B % n)
    def h(S):
        Y = S.reals('y', n)
        X = S.reals('x', (n, 1))
        k = S.choice('pair_i', n)
        ps = S.lop.generate_fake_pairs(X, lambda x, data=None: Y, k)
        S.observe('ps', [list(p) for p in ps])
        S.check(S.true() if len(ps) == n - 1 and
                {frozenset((int(p[1]), int(p[2]))) for p in ps} == {frozenset((k, i)) for i in range(n) if i != k}
                else S.false(), 'the reference point is compared with every other point once')
        for d, i, j in ps:
            S.check(S.any([S.all([S.eq(d, -1), S.ge(Y[i], Y[j], 0)]), S.all([S.eq(d, 1), S.gt(Y[j], Y[i], 0)])]),
                    'each generated pair agrees with the values')

    @case('C01', 'generate_ranking_pairs n=%d' % n, tier=tier, bounds=B % n)
    def h(S):
        Y = S.reals('y', n)
        X = S.reals('x', (n, 1))
        ps = S.lop.generate_ranking_pairs(X, lambda x, data=None: Y)
        ok = isinstance(ps, list) and len(ps) == n * (n - 1) // 2 and \
            len({frozenset((int(p[1]), int(p[2]))) for p in ps}) == len(ps) and all(int(p[1]) != int(p[2]) for p in ps)
        S.check(S.true() if ok else S.false(), 'a ranking yields one preference for every pair of points')
        for d, i, j in (ps or []):
            S.check(S.any([S.all([S.eq(d, -1), S.ge(Y[i], Y[j], 0)]), S.all([S.eq(d, 1), S.ge(Y[j], Y[i], 0)])]),
                    'each ranking pair agrees with the values')

    @case('C01', 'gen_pairs_from_idx n=%d' % n, tier=tier, bounds='index lists of length %d over 0..%d, every best index' % (n, n))
    def h(S):
        idx = [S.choice('i', n + 1) for _ in range(n)] if n < 4 else S.perm('i', n)
        best = S.choice('best', n + 1)
        ps = S.lop.gen_pairs_from_idx(best, idx)
        S.observe('ps', [list(p) for p in ps])
        want = sorted(i for i in idx if i != best)
        ok = sorted(int(p[2] if p[0] == -1 else p[1]) for p in ps) == want and \
            all((p[1] if p[0] == -1 else p[2]) == best and p[0] in (-1, 1) for p in ps)
        S.check(S.true() if ok else S.false(), 'the best point is preferred over each other listed point, once')


for _n in (2, 3, 4, 5):
    mk(_n, 'quick')
mk(6, 'thorough')


def many(n, step):
    @case('C01', 'many points: %d, order %d' % (n, step), bounds='%d points, any values in one fixed order, some equal' % n)
    def h(S):
        order = [(i * step) % n for i in range(n)]
        v, Y = S.real('y0', -2, 2), [None] * n
        for k, i in enumerate(order):
            Y[i] = v
            if k % 3 != 1:
                v = v + S.real('step', 0.01, 2)
        Y = S.array(Y)
        X = S.array([[S.const(i)] for i in range(n)])

        def right(ps, label):
            for d, i, j in ps:
                S.check(S.any([S.all([S.eq(d, -1), S.ge(Y[i], Y[j], 0)]), S.all([S.eq(d, 1), S.ge(Y[j], Y[i], 0)])]), label)
        pairs = lambda ps: {tuple(sorted((int(p[1]), int(p[2])))) for p in ps}
        every = {(i, j) for i in range(n) for j in range(i + 1, n)}
        ps = S.lop.ranked_pairs_from_fake(X, lambda x: Y)
        S.check(S.true() if pairs(ps) == every and len(ps) == len(every) else S.false(), 'every pair of points is compared exactly once')
        right(ps, 'each generated pair agrees with the values')
        ps = S.lop.generate_ranking_pairs(X, lambda x, data=None: Y)
        S.check(S.true() if pairs(ps) == every and len(ps) == len(every) else S.false(), 'a ranking yields one preference for every pair of points')
        right(ps, 'each ranking pair agrees with the values')
        for k in (0, n // 2, n - 1):
            ps = S.lop.generate_fake_pairs(X, lambda x, data=None: Y, k)
            S.check(S.true() if pairs(ps) == {tuple(sorted((k, i))) for i in range(n) if i != k} and len(ps) == n - 1 else S.false(),
                    'the reference point is compared with every other point once')
            right(ps, 'each generated pair agrees with the values')
            ps = S.lop.gen_pairs_from_idx(k, list(range(n)))
            S.check(S.true() if sorted(int(p[2]) if p[0] == -1 else int(p[1]) for p in ps) == [i for i in range(n) if i != k] and
                    all((p[1] if p[0] == -1 else p[2]) == k for p in ps) else S.false(),
                    'the best point is preferred over each other listed point, once')


many(12, 5)
many(21, 8)


@case('C01', 'preference', bounds='indices 0..3')
def _p(S):
    u, v = S.choice('u', 4), S.choice('v', 4)
    p = S.lop.preference(u, v)
    d, i, j = p
    ok = (d == -1 and (i, j) == (u, v)) or (d == 1 and (i, j) == (v, u))
    S.check(S.true() if ok else S.false(), 'preference(u, v) says u is better than v')
