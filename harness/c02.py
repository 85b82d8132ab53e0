"""C02: the Pareto filter keeps exactly the non-dominated points."""
from engine.api import case


def mk(n, d, tier, mask=False, dup=False):
    nm = 'pareto n=%d d=%d%s' % (n, d, ' mask' if mask else '')

    @case('C02', nm, tier=tier, bounds='%d points, %d objectives, all real values including ties' % (n, d), weight=n * d)
    def h(S):
        V = S.reals('v', (n, d))
        W = S.array([[V[i, j] for j in range(d)] for i in range(n)])
        r = S.lop.get_pareto(V, return_mask=True) if mask else S.lop.get_pareto(V)
        if mask:
            S.check(S.true() if len(r) == n else S.false(), 'the mask covers every point')
            keep = [i for i in range(n) if bool(r[i])]
        else:
            keep = [int(i) for i in r]
        S.observe('keep', keep)
        S.check(S.true() if len(set(keep)) == len(keep) and all(0 <= i < n for i in keep) else S.false(),
                'the result lists valid points without repetition')

        def wdom(i, j):      # i at least as good as j everywhere
            return S.all([S.ge(W[i, k], W[j, k], 0) for k in range(d)])
        for i in range(n):
            if i in keep:
                for j in range(n):
                    if j != i:
                        S.check(S.not_(S.all([wdom(j, i), S.not_(wdom(i, j))])), 'no kept point is dominated by any point')
                        if j in keep:
                            S.check(S.not_(wdom(j, i)), 'no kept point is covered by another kept point')
            else:
                S.check(S.any([wdom(j, i) for j in keep]), 'every dropped point is matched or dominated by a kept one')
        for i in range(n):
            for k in range(d):
                S.check(S.eq(V[i, k], W[i, k], 0), 'the input values are not modified')


for n, d in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2)):
    mk(n, d, 'quick')
for n, d in ((2, 2), (3, 2)):
    mk(n, d, 'quick', True)
for n, d in ((5, 1), (4, 3), (5, 2)):
    mk(n, d, 'thorough')


def many(n, d, k, mask=False):
    @case('C02', 'pareto n=%d d=%d, order %d%s' % (n, d, k, ' mask' if mask else ''),
          bounds='%d points, %d objectives, any values in one fixed order per objective, some equal' % (n, d))
    def h(S):
        # rank of every point in every objective, with ties
        rank = [[((i * (3 + 2 * j + k) + i * i * (j + 1)) % (n + 2)) // (1 + (k + j) % 2) for j in range(d)] for i in range(n)]
        if k % 3 == 0:
            for i in range(2, n, 4):
                rank[i] = list(rank[i - 2])         # repeated points
        base = []
        for j in range(d):
            v = S.real('o%d' % j, -5, 5)
            b = []
            for r in range(n + 2):
                b.append(v)
                v = v + S.real('s%d' % j, 0.001, 3)
            base.append(b)
        V = S.array([[base[j][rank[i][j]] for j in range(d)] for i in range(n)])
        r = S.lop.get_pareto(V, return_mask=mask)
        keep = [i for i in range(n) if bool(r[i])] if mask else [int(i) for i in r]
        S.check(S.true() if len(set(keep)) == len(keep) and all(0 <= i < n for i in keep) and (not mask or len(r) == n) else S.false(),
                'the result lists valid points without repetition')
        over = lambda i, j: all(a >= b for a, b in zip(rank[i], rank[j]))
        for i in range(n):
            if i in keep:
                S.check(S.false() if any(over(j, i) and not over(i, j) for j in range(n)) else S.true(), 'no kept point is dominated by any point')
                S.check(S.false() if any(over(j, i) for j in keep if j != i) else S.true(), 'no kept point is covered by another kept point')
            else:
                S.check(S.true() if any(over(j, i) for j in keep) else S.false(), 'every dropped point is matched or dominated by a kept one')


for _k in range(6):
    many(12, 2 + _k % 2, _k, _k == 4)
many(25, 3, 1)
many(25, 4, 6)
