"""C13: synthetic users answer consistently with their preferences."""
from engine.api import case


def utility(S, n, lo=-6, hi=6):
    """n options with arbitrary utilities: a user function given by its values"""
    y = S.reals('y', n, lo, hi)
    X = S.np.array([[float(i)] for i in range(n)])

    def f(Q):
        Q = S.np.asarray(Q) if S.mode == 'conc' else Q
        if getattr(Q, 'ndim', 0) == 2:
            return S.array([y[int(r[0])] for r in Q])
        if getattr(Q, 'ndim', 0) == 3:
            return S.array([[y[int(r[0])] for r in q] for q in Q])
        return y[int(Q[0])]
    return y, X, f


def pairs(S, prs, best, n):
    S.check(S.true() if len(prs) == n - 1 else S.false(), 'one comparison per other option')
    seen = []
    for d, a, b in prs:
        w, l = (a, b) if d == -1 else (b, a)
        S.check(S.true() if d in (-1, 1) and int(w) == int(best) else S.false(), 'the picked option is preferred')
        seen.append(int(l))
    S.check(S.true() if sorted(seen) == [i for i in range(n) if i != best] else S.false(),
            'every other option is compared once')


def sig(S, v):
    return 1 / (1 + S.fn('exp', -v))


def perfect(n):
    @case('C13', 'perfect user, %d options' % n, bounds='any %d utilities in +-6' % n)
    def h(S):
        y, X, f = utility(S, n)
        u = S.lop.PerfectUser(f)
        i = int(u.choose(X))
        S.check(S.true() if 0 <= i < n else S.false(), 'an offered option is picked')
        for j in range(n):
            S.check(S.ge(y[i], y[j]), 'the best option is picked')
        pairs(S, u.choose_pairs(X), i, n)
        r = u.rate(X)
        S.observe('r', r)
        S.check(S.true() if len(r) == n else S.false(), 'one rating per option')
        for a in range(n):
            S.check(S.all([S.gt(r[a], 0), S.lt(r[a], 1)]), 'ratings lie between 0 and 1')
            S.check(S.eq(r[a], u.rate(X[a:a + 1])[0]), 'an option is rated the same alone')
            for b in range(n):
                if a != b:
                    S.check(S.implies(S.ge(y[a], y[b], 0), S.ge(r[a], r[b])), 'ratings do not decrease with value')


for _n in (1, 2, 3, 4):
    perfect(_n)


def human(n, cls, tier='quick'):
    opts = dict(tier=tier, bounds='any %d utilities in +-3, rationality and noise up to 3, any draws' % n)

    @case('C13', '%s choices, %d options' % (cls, n), ctx={'check_p': True}, **opts)
    def h(S):
        y, X, f = utility(S, n, -3, 3)
        beta = S.real('beta', 0.05, 3.0)
        u = getattr(S.lop, cls)(f, beta=beta)
        if S.boolean('own scale'):
            u.k, u.b = S.real('k', 0.1, 5.0), S.real('b', -3, 3)
        i = int(u.choose(X))
        S.check(S.true() if 0 <= i < n else S.false(), 'an offered option is picked')
        p = S.choice_p[-1]
        S.check(S.true() if p is not None and len(p) == n else S.false(), 'each option has a probability')
        for a in range(n):
            for b in range(n):
                if a != b:
                    S.check(S.eq(p[a], p[b] * S.fn('exp', beta * u.k * (y[a] - y[b])), 1e-5),
                            'the odds of two options follow their utilities')
        k0 = len(S.choice_p)
        prs = u.choose_pairs(X)
        S.check(S.true() if len(S.choice_p) == k0 + 1 else S.false(), 'one choice per query')
        if n > 1:
            d, a, b = prs[0]
            pairs(S, prs, int(a) if d == -1 else int(b), n)
        else:
            pairs(S, prs, 0, n)

    @case('C13', '%s ratings, %d options' % (cls, n), **opts)
    def h(S):
        y, X, f = utility(S, n, -3, 3)
        sg = S.real('sigma', 0.0, 3.0)
        u = getattr(S.lop, cls)(f, sigma=sg)
        if S.boolean('own scale'):
            u.k, u.b = S.real('k', 0.1, 5.0), S.real('b', -3, 3)
        r = u.rate(X)
        z = [v for k, v in S.draws if k == 'normal']
        S.check(S.true() if len(r) == n and len(z) == n else S.false(), 'one rating and one disturbance per option')
        for a in range(n):
            S.check(S.all([S.gt(r[a], 0), S.lt(r[a], 1)]), 'ratings lie between 0 and 1')
            S.check(S.eq(r[a], sig(S, u.k * y[a] + u.b + sg * z[a])), 'the rating is the disturbed utility on the rating scale')
        if n > 1:
            S.check(S.implies(S.all([S.ge(y[0], y[1], 0), S.ge(z[0], z[1], 0)]), S.ge(r[0], r[1])),
                    'ratings do not decrease with value')


for _c in ('HumanChoiceUser', 'HumanChoiceUser2'):
    human(1, _c)
    human(2, _c)
    human(3, _c)


def tuned(m, tier='quick'):
    @case('C13', 'rationality fits the target, %d comparisons' % m, tier=tier,
          bounds='any %d utility differences in +-5, rationality in [0.1,5], target in [0.5,1]' % m)
    def h(S):
        u = S.lop.HumanChoiceUser2(lambda x: x)
        d = S.reals('d', m, -5, 5)
        for i in range(m):
            S.assume(S.any([S.ge(d[i], 0.01), S.ge(-0.01, d[i])]))
        b, p = S.real('b', 0.1, 5.0), S.real('p', 0.5, 1.0)
        t = S.const(0)
        for i in range(m):
            ad = S.ite(S.ge(d[i], 0, 0), d[i], -d[i])
            t = t + sig(S, b * ad)
        S.check(S.eq(u.obj(b, d, p), (t / m - p) ** 2),
                'the objective is the squared gap between the mean chance of the better option and the target')

    @case('C13', 'rating noise fits the target, %d comparisons' % m, tier=tier,
          bounds='any %d utility differences in +-5, noise in [0.1,5], target in [0.5,1]' % m)
    def h(S):
        u = S.lop.HumanChoiceUser2(lambda x: x)
        d = S.reals('d', m, -5, 5)
        for i in range(m):
            S.assume(S.any([S.ge(d[i], 0.01), S.ge(-0.01, d[i])]))
        sg, p = S.real('sg', 0.1, 5.0), S.real('p', 0.5, 1.0)
        t = S.const(0)
        for i in range(m):
            ad = S.ite(S.ge(d[i], 0, 0), d[i], -d[i])
            t = t + S.fn('ndtr', ad / (S.fn('sqrt', S.const(2)) * sg))
        S.check(S.eq(u.rate_obj(sg, d, p), (t / m - p) ** 2),
                'the objective is the squared gap between the mean chance of the better rating and the target')


tuned(1)
tuned(2)
tuned(3, 'thorough')


@case('C13', 'tied comparisons do not count', bounds='one tie and one difference in [0.01,5]')
def _t(S):
    u = S.lop.HumanChoiceUser2(lambda x: x)
    a = S.real('a', 0.01, 5.0)
    sg, b, p = S.real('sg', 0.1, 5.0), S.real('b', 0.1, 5.0), S.real('p', 0.5, 1.0)
    d = S.array([S.const(0), a])
    S.check(S.eq(u.rate_obj(sg, d, p), (S.fn('ndtr', a / (S.fn('sqrt', S.const(2)) * sg)) - p) ** 2),
            'ties do not count towards the rating target')
    S.check(S.eq(u.obj(b, d, p), (sig(S, b * a) - p) ** 2), 'ties do not count towards the choice target')


@case('C13', 'sampled rationality objective', bounds='2 queries of 2 options, any utilities in +-3, any draws')
def _s(S):
    u = S.lop.HumanChoiceUser(lambda x: x)
    y = S.reals('y', (2, 2), -3, 3)
    b, want = S.real('b', 0.1, 3.0), S.real('p', 0.0, 1.0)
    v = u.sampled_objective(b, want, y, y)
    dr = [x for k, x in S.draws if k == 'u']
    S.check(S.true() if len(dr) == 2 else S.false(), 'one draw per query')
    cnt = S.const(0)
    for i in range(2):
        d = y[i, 0] - y[i, 1]
        pm = sig(S, b * S.ite(S.ge(d, 0, 0), d, -d))
        cnt = cnt + S.ite(S.ge(pm, dr[i], 0), S.const(1), S.const(0))
    S.check(S.eq(v, (cnt / 2 - want) ** 2),
            'the squared gap between the fraction of queries answered with the best option and the target')


def perfect_many(n, order):
    @case('C13', 'perfect user, %d options in one order' % n, bounds='any utilities in +-6 in the order given')
    def h(S):
        y, X, f = utility(S, n)
        for a, b in zip(order, order[1:]):
            S.assume(S.gt(y[b], y[a], 0))
        u = S.lop.PerfectUser(f)
        S.check(S.true() if int(u.choose(X)) == order[-1] else S.false(), 'the best option is picked')
        pairs(S, u.choose_pairs(X), order[-1], n)
        r = u.rate(X)
        S.check(S.true() if len(r) == n else S.false(), 'one rating per option')
        for a, b in zip(order, order[1:]):
            S.check(S.ge(r[b], r[a]), 'ratings do not decrease with value')


perfect_many(7, [3, 0, 6, 2, 5, 1, 4])
perfect_many(12, [(5 * i + 2) % 12 for i in range(12)])


def human_many(n, order, cls):
    @case('C13', '%s choices, %d options in one order' % (cls, n), ctx={'check_p': True},
          bounds='any utilities in +-3 in the order given, rationality up to 3, any draws')
    def h(S):
        y, X, f = utility(S, n, -3, 3)
        for a, b in zip(order, order[1:]):
            S.assume(S.gt(y[b], y[a], 0))
        beta = S.real('beta', 0.05, 3.0)
        u = getattr(S.lop, cls)(f, beta=beta)
        i = int(u.choose(X))
        S.check(S.true() if 0 <= i < n else S.false(), 'an offered option is picked')
        p = S.choice_p[-1]
        S.check(S.true() if p is not None and len(p) == n else S.false(), 'each option has a probability')
        b = order[-1]
        for a in range(n):
            if a != b:
                S.check(S.eq(p[a], p[b] * S.fn('exp', beta * u.k * (y[a] - y[b])), 1e-5), 'the odds of two options follow their utilities')


for _c in ('HumanChoiceUser', 'HumanChoiceUser2'):
    human_many(6, [3, 0, 5, 2, 1, 4], _c)
