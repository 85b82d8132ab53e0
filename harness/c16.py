"""C16: score normalisation maps onto the unit interval monotonically."""
from engine.api import case


def mk(n, tier='quick', eps=True):
    @case('C16', 'normalise %d scores%s' % (n, '' if eps else ', default margin'), tier=tier,
          bounds='any %d reals%s' % (n, ', any positive margin' if eps else ''))
    def h(S):
        x = S.reals('x', n)
        e = S.real('eps', 0.0, None, True) if eps else S.const(1, 10000)
        f = S.lop.utilities.training_utility.normalize_0_1
        y = f(x, eps=e) if eps else f(x)
        S.observe('y', y)
        S.check(S.true() if y.shape == (n,) else S.false(), 'one value per score')
        lo = [S.all([S.ge(x[j], x[i]) for j in range(n)]) for i in range(n)]
        hi = [S.all([S.ge(x[i], x[j]) for j in range(n)]) for i in range(n)]
        for i in range(n):
            S.check(S.gt(y[i], 0), 'inside the unit interval')
            S.check(S.lt(y[i], 1), 'inside the unit interval')
            for j in range(n):
                if i != j:
                    S.check(S.implies(S.gt(x[i], x[j]), S.gt(y[i], y[j])) if S.mode == 'sym' else
                            bool(y[i] > y[j]) or not bool(x[i] > x[j] + 1e-9), 'the order of scores is kept')
                    S.check(S.implies(S.eq(x[i], x[j], 0), S.eq(y[i], y[j])), 'equal scores stay equal')
                    for k in range(n):
                        if len({i, j, k}) == 3:
                            S.check(S.eq((y[i] - y[j]) * (x[i] - x[k]), (y[i] - y[k]) * (x[i] - x[j])),
                                    'the map is affine')
                    S.check(S.implies(S.all([lo[i], hi[j]]), S.all([
                        S.eq(y[i] * (x[j] - x[i] + 2 * e), e), S.eq((1 - y[j]) * (x[j] - x[i] + 2 * e), e)])),
                        'the extreme scores go to the ends, up to the margin')
        S.check(S.implies(S.all([S.eq(x[i], x[0], 0) for i in range(n)]), S.eq(y[0], S.const(1, 2))),
                'equal scores give a defined value')


for _n in (1, 2, 3):
    mk(_n)
mk(2, eps=False)
mk(3, eps=False)
mk(4)
mk(5, 'thorough')


@case('C16', 'utility range', bounds='any 2 or 3 utilities, any end ratings in (0,1)')
def _r(S):
    n = 2 + S.choice('n', 2)
    f = S.reals('f', n, -50, 50)
    lo, hi = S.real('lo', 0.01, 0.5), S.real('hi', 0.5, 0.99)
    S.assume(S.gt(hi, lo + 0.01))
    u = S.lop.HumanChoiceUser2(lambda x: x, bot_range=lo, top_range=hi)
    S.assume(S.any([S.gt(f[i], f[0] + 0.01) for i in range(1, n)]))
    k, b = u.get_k_b(f)

    def logit(p):
        return S.fn('log', p) - S.fn('log', 1 - p)
    for i in range(n):
        least = S.all([S.ge(f[j], f[i], 0) for j in range(n)])
        most = S.all([S.ge(f[i], f[j], 0) for j in range(n)])
        S.check(S.implies(least, S.eq(k * f[i] + b, logit(lo))), 'the smallest utility maps to the lower end rating')
        S.check(S.implies(most, S.eq(k * f[i] + b, logit(hi))), 'the largest utility maps to the upper end rating')


def sorted_many(n, order):
    @case('C16', 'normalise %d scores in one order' % n, bounds='any reals in the order given (ties included), any positive margin')
    def h(S):
        x = S.reals('x', n)
        e = S.real('eps', 0.0, None, True)
        for a, b in zip(order, order[1:]):
            S.assume(S.ge(x[b], x[a], 0))
        y = S.lop.utilities.training_utility.normalize_0_1(x, eps=e)
        lo, hi = order[0], order[-1]
        S.check(S.true() if y.shape == (n,) else S.false(), 'one value per score')
        for i in range(n):
            S.check(S.eq(y[i] * (x[hi] - x[lo] + 2 * e), x[i] - x[lo] + e), 'the map is affine and sends the extremes to the ends')


sorted_many(9, [4, 0, 8, 2, 6, 1, 7, 3, 5])
sorted_many(25, [(7 * i + 3) % 25 for i in range(25)])
