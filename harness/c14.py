"""C14: sampled sets are distinct and valid, for every random draw."""
from engine.api import case


def rows(Q):
    return [[Q[i, j] for j in range(Q.shape[1])] for i in range(Q.shape[0])]


def judge(S, Q, pop, num, size):
    S.check(S.true() if tuple(Q.shape) == (num, size) else S.false(), 'the requested number of sets of the requested size')
    R = rows(Q)
    for r in R:
        for v in r:
            S.check(S.any([S.eq(v, p, 0) for p in pop]), 'every member comes from the population')
        for a in range(size):
            for b in range(a):
                S.check(S.not_(S.eq(r[a], r[b], 0)), 'no set repeats an item')
    for a in range(len(R)):
        for b in range(a):
            S.check(S.any([S.all([S.not_(S.eq(x, y, 0)) for y in R[b]]) for x in R[a]]),
                    'no two sets have the same members')


def ints(n, num, size, draws, tier='quick'):
    @case('C14', '%d sets of %d from %d items' % (num, size, n), tier=tier, ctx={'max_draws': draws}, validate=8,
          bounds='every outcome of up to %d single-set draws' % draws, weight=3)
    def h(S):
        Q = S.lop.sample_unique_sets(n, num, size)
        judge(S, Q, list(range(n)), num, size)


def lists(n, num, size, draws, tier='quick'):
    @case('C14', '%d sets of %d from a list of %d arbitrary values' % (num, size, n), tier=tier,
          ctx={'max_draws': draws}, validate=8, weight=5,
          bounds='any %d distinct values; every outcome of up to %d single-set draws' % (n, draws))
    def h(S):
        p = S.reals('p', n, -50, 50)
        for a in range(n):
            for b in range(a):
                S.assume(S.any([S.ge(p[a], p[b] + 1), S.ge(p[b], p[a] + 1)]))
        from importlib import import_module
        f = S.lop.utilities.sample_utility.sample_unique_sets_fast
        Q = f(p, num, size)
        judge(S, Q, list(p), num, size)


ints(2, 1, 1, 3)
ints(2, 2, 1, 4)
ints(3, 1, 2, 2)
ints(3, 2, 2, 4)
ints(4, 1, 3, 2)
ints(3, 3, 1, 4)
ints(4, 2, 2, 3)
ints(3, 1, 3, 2)
ints(3, 3, 2, 4, 'thorough')
ints(4, 2, 3, 4, 'thorough')
ints(4, 3, 2, 4, 'thorough')
lists(2, 2, 1, 3)
lists(3, 1, 2, 2)
lists(3, 2, 1, 3)
lists(3, 2, 2, 3)
lists(4, 2, 2, 3, 'thorough')
