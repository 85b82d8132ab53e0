"""C26: calibrating a simulated user aims at the requested reliability."""
from math import comb

from engine.api import case


class Res:
    def __init__(self, x, fun):
        self.x, self.fun, self.success, self.message, self.nit, self.nfev = x, fun, True, '', 1, 1


def sig(S, v):
    return 1 / (1 + S.fn('exp', -v))


def ab(S, v):
    return S.ite(S.ge(v, 0, 0), v, -v)


def table(S, shape):
    """rewards of several problems in several environments; the utility of each path is arbitrary"""
    ys, rew, k = [], [], 0
    for env in shape:
        e, r = [], []
        for n in env:
            e.append(list(S.reals('y%d' % k, n, -3, 3)))
            r.append(S.np.array([[float(k), float(i)] for i in range(n)]))
            k += 1
        ys.append(e)
        rew.append(r)
    flat = [p for e in ys for p in e]
    rev = S.boolean('paths in decreasing order')

    def at(k, i):
        return flat[k][len(flat[k]) - 1 - i if rev else i]

    def f(Q):
        if Q.ndim == 1:
            return at(int(Q[0]), int(Q[1]))
        return S.array([at(int(r[0]), int(r[1])) for r in Q])
    f.rev = rev
    return ys, rew, flat, f


def two(name, shape, tier='quick', gap=0.5, order=True, asc=False):
    @case('C26', 'one-step calibration: ' + name, tier=tier, weight=2,
          bounds='utilities increasing by at least %s in a problem, the first lowest and the last highest, any rating scale, '
          'any targets, optimiser answers and draws%s' % (gap, '; the problems 0.25 apart, one any of them with an arbitrary gap' if asc else ''))
    def h(S):
        ys, rew, flat, f = table(S, shape)
        flat[0][0], flat[-1][-1] = S.const(-1), S.const(2)
        for p in flat if not asc else []:
            for i in range(len(p) - 1):
                S.assume(S.ge(p[i + 1] - p[i], gap, 0))
            S.assume(S.all([S.ge(p[0], -1, 0), S.ge(2, p[-1], 0)]))
        if asc:
            wide = S.choice('wide problem', len(flat))
            d = S.real('d', 1.0, 2.0)
            for i in range(len(flat)):
                flat[i][0] = S.const(i, 4)
                flat[i][1] = flat[i][0] + (d if i == wide else S.const(1, 2))
        u = S.lop.HumanChoiceUser2(f)
        K, B, spans = S.real('k', 1.0, 3.0), S.real('b', -3, 3), []
        S.swap(u, 'get_k_b', lambda y: spans.append(y) or (K, B))       # decided by the case 'rating range'
        calls = []

        def solver(fun, *a, bounds=None, args=(), **k):
            n = len(calls)
            x = S.real('x%d' % n, 0.5 + 1.5 * (n % 2), 1.5 + 1.5 * (n % 2))
            calls.append((x, fun(x, *args)))
            return Res(x, S.const(0))
        S.patch(u, 'minimize_scalar', solver)
        picked = []
        if not order:
            def choose(n, m, replace=True, p=None):
                picked.append(list(range(n))[::-1][:m])
                return S.np.array(picked[-1])
            S.swap(S.np.random, 'choice', choose)     # one draw only: fewer paths
        p = S.real('p', 0.5, 1.0)
        own = S.boolean('own rating target')
        ps = S.real('ps', 0.5, 1.0) if own else p
        u.learn_beta(rew, p, p_sigma=ps if own else None)
        S.check(S.true() if len(calls) == 2 else S.false(), 'the rationality and the rating noise are tuned once each')
        lo, hi = flat[0][0], flat[-1][-1]
        if asc:
            lo, hi = lo, S.ite(S.ge(hi, flat[wide][1], 0), hi, flat[wide][1])
        for y in spans:
            S.check(S.all([S.eq(S.np.min(y), lo), S.eq(S.np.max(y), hi)]), 'the rating scale spans all paths')
        S.check(S.all([S.eq(u.k, K, 0), S.eq(u.b, B, 0)]) if spans else S.true(), 'the fitted rating scale is used')
        m = min(len(q) for q in flat)
        r2 = S.fn('sqrt', S.const(2))

        def subsets(n, k):
            if k == 0:
                return [[]]
            return [s + [i] for i in range(n) for s in subsets(i, k - 1)]
        rows = [[]]
        for n, q in enumerate(flat):
            if len(picked) == len(flat):
                rows = [rows[0] + [sorted([len(q) - 1 - i if f.rev else i for i in picked[n]])]]
                rows[0][-1] = [q[i] for i in rows[0][-1]]
                continue
            rows = [r + [[q[i] for i in s]] for r in rows for s in subsets(len(q), m)]
        for what, mine, target, chance in (('rating noise', u.sigma, ps, lambda d: S.fn('ndtr', u.k * d / (r2 * u.sigma))),
                                           ('rationality', u.beta, p, lambda d: sig(S, u.beta * u.k * d))):
            hit = [v for x, v in calls if x is mine] or [v for x, v in calls if S.mode == 'conc' and x == mine]
            S.check(S.true() if hit else S.false(), 'the %s is the value the optimiser found for it' % what)
            if not hit:
                continue
            alts = []
            for r in rows:
                ch = [chance(q[j] - q[i]) for q in r for j in range(m) for i in range(j)]
                t = S.const(0)
                for c in ch:
                    t = t + c
                alts.append(S.eq(hit[0], (t / len(ch) - target) ** 2))
            S.check(S.any(alts), 'the %s is tuned on the squared gap between the mean chance of a right answer and its target' % what)


@case('C26', 'rating range', bounds='3 different utilities in [-3,3] in any order, any rating range')
def _r(S):
    y = S.reals('y', 3, -3, 3)
    S.assume(S.any([S.ge(ab(S, y[0] - y[1]), 0.05), S.ge(ab(S, y[0] - y[2]), 0.05)]))
    bot, top = S.real('bot', 0.02, 0.45), S.real('top', 0.55, 0.98)
    k, b = S.lop.HumanChoiceUser2(lambda x: x, bot_range=bot, top_range=top).get_k_b(y)
    S.check(S.gt(k, 0), 'better paths are rated higher')
    for i in range(3):
        others = [y[j] for j in range(3) if j != i]
        S.check(S.implies(S.all([S.ge(v, y[i], 0) for v in others]), S.eq(k * y[i] + b, S.fn('log', bot) - S.fn('log', 1 - bot))),
                'the worst path is rated at the bottom of the rating range')
        S.check(S.implies(S.all([S.ge(y[i], v, 0) for v in others]), S.eq(k * y[i] + b, S.fn('log', top) - S.fn('log', 1 - top))),
                'the best path is rated at the top of the rating range')


two('2 problems of 2 paths', [[2, 2]])
two('2 environments of 2 problems', [[2, 2], [2, 2]], order=False)
two('3 paths', [[3]])
two('different sizes', [[2], [3]], order=False)
two('different sizes, larger first', [[3], [2]], order=False)
two('2 environments of 3 problems', [[2, 2, 2], [2, 2, 2]], order=False, asc=True)
two('3 environments of 2 problems', [[2, 2], [2, 2], [2, 2]], order=False, asc=True)
two('2 environments of 3 paths', [[3], [3]], 'thorough', order=False)


def tries(kind, cls):
    @case('C26', 'repeated calibration of the %s, %s' % (kind, cls), bounds='up to ten optimiser answers with any errors')
    def h(S):
        C = getattr(S.lop, cls)
        u = C(lambda x: x)
        u.k, u.b = S.real('k', 0.1, 5.0), S.real('b', -3, 3)
        got = []

        def solver(fun, *a, bounds=None, args=(), **k):
            got.append((S.real('x%d' % len(got), 0.1, 3.0), S.real('e%d' % len(got), 0.0, 1.0)))
            S.assume(S.any([S.ge(got[-1][1], 0.0201), S.ge(0.0199, got[-1][1])]))
            return Res(*got[-1])
        S.patch(u, 'minimize_scalar', solver)
        X = S.np.array([[0.0], [1.0], [2.0]])
        Qs = S.np.array([[0, 1], [1, 2]])
        old = (u.beta, u.sigma)
        g = u.learn_beta_pairwise if kind == 'rationality' else u.learn_sigma
        ok = not S.expect_raises(lambda: g(X, 0.9, 2, Qs=Qs), Exception)
        S.check(S.true() if 1 <= len(got) <= 10 else S.false(), 'at most ten tries')
        for x, e in got[:-1]:
            S.check(S.ge(e, 0.02), 'another try only after a bad one')
        mine, other = (u.beta, u.sigma) if kind == 'rationality' else (u.sigma, u.beta)
        if ok:
            S.check(S.ge(0.02, got[-1][1]), 'a bad fit is never accepted')
            S.check(S.eq(mine, got[-1][0], 0), 'the last fit is used')
        else:
            S.check(S.ge(got[-1][1], 0.02), 'a good fit is not rejected')
            S.check(S.true() if len(got) == 10 else S.false(), 'it only gives up after ten tries')
            S.check(S.eq(mine, old[0 if kind == 'rationality' else 1], 0), 'a rejected fit leaves the old value')
        S.check(S.eq(other, old[1 if kind == 'rationality' else 0], 0), 'the other setting stays')


for _k in ('rationality', 'rating noise'):
    tries(_k, 'HumanChoiceUser')


@case('C26', 'two-stage calibration', bounds='4 paths, any utilities in [-3,3], any targets, optimiser answers and draws')
def _l(S):
    y = S.reals('y', 3, -3, 3)
    for i in range(2):
        S.assume(S.ge(y[i + 1] - y[i], 0.1, 0))

    def f(Q):
        return S.array([y[at(r)] for r in Q]) if Q.ndim == 2 else S.array([[y[at(r)] for r in q] for q in Q])
    u = S.lop.HumanChoiceUser(f)
    names = [[0.0], [1.0], [2.0]] if S.boolean('rewards ordered like the utilities') else [[5.0], [3.0], [4.0]]
    at = lambda r: [int(v[0]) for v in names].index(int(r[0]))
    X = S.np.array(names)
    asked, calls = [], []
    sets = S.np.array([[0, 1], [2, 0]])

    def sample(n, k, q):
        asked.append((n, k, q))
        return sets
    S.patch(u, 'sample_unique_sets', sample)

    def solver(fun, *a, bounds=None, args=(), **k):
        n = len(calls)
        x = S.real('x%d' % n, 0.5 + 1.5 * (n % 2), 1.5 + 1.5 * (n % 2))
        n0 = len(S.draws)
        v = fun(x, *args)
        calls.append((x, v, S.draws[n0:]))
        return Res(x, S.const(0))
    S.patch(u, 'minimize_scalar', solver)
    p, own = S.real('p', 0.5, 1.0), S.boolean('own rating target')
    ps = S.real('ps', 0.5, 1.0) if own else p
    u.learn_beta(X, p, 2, ps if own else None)
    S.check(S.true() if len(calls) == 2 else S.false(), 'the rationality and the rating noise are tuned once each')
    S.check(S.true() if all(n == 3 and q == 2 and 1 <= k <= 3 for n, k, q in asked) and asked else S.false(),
            'the queries are drawn from the given paths')
    for what, mine, target in (('rationality', u.beta, p), ('rating noise', u.sigma, ps)):
        hit = [c for c in calls if c[0] is mine or (S.mode == 'conc' and c[0] == mine)]
        S.check(S.true() if hit else S.false(), 'the %s is the value the optimiser found for it' % what)
        if not hit:
            continue
        x, v, dr = hit[0]
        cnt = S.const(0)
        if what == 'rationality':
            z = [w for k, w in dr if k == 'u']
            S.check(S.true() if len(z) == 2 else S.false(), 'one simulated answer per query')
            for q, w in zip((1, 2), z):
                c = sig(S, u.beta * u.k * (y[q] - y[0]))
                cnt = cnt + S.ite(S.ge(c, w, 0), S.const(1), S.const(0))
                S.assume(S.any([S.ge(c - w, 1e-6), S.ge(w - c, 1e-6)]))
        else:
            z = [w for k, w in dr if k == 'normal']
            S.check(S.true() if len(z) == 4 else S.false(), 'one simulated rating per option')
            for n, q in enumerate((1, 2)):
                a, b = u.k * y[0] + u.sigma * z[3 * n], u.k * y[q] + u.sigma * z[n + 1]
                cnt = cnt + S.ite(S.ge(b, a, 0), S.const(1), S.const(0))
                S.assume(S.any([S.ge(b - a, 1e-6), S.ge(a - b, 1e-6)]))
        S.check(S.eq(v, (cnt / 2 - target) ** 2),
                'the %s is tuned on the squared gap between the fraction of right answers and its target' % what)


@case('C26', 'sampled queries', bounds='3 to 400 paths in steps, queries of 2 to 4 options')
def _q(S):
    n = (3, 4, 5, 7, 8, 9, 12, 20, 60, 400)[S.choice('n', 10)]
    q = 2 + S.choice('q', 3)
    if q > n:
        return
    u = S.lop.HumanChoiceUser(lambda x: x)
    asked = []
    S.patch(u, 'sample_unique_sets', lambda *a: asked.append(a) or S.np.zeros((a[1], a[2])))
    u.sample_Qs(S.np.zeros((n, 2)), q)
    S.check(S.true() if len(asked) == 1 and asked[0][0] == n and asked[0][2] == q else S.false(), 'queries of the asked size over all paths')
    k, c = asked[0][1], comb(n, q)
    S.check(S.true() if isinstance(k, int) and 1 <= k <= c else S.false(), 'never more queries than there are')
    S.check(S.true() if k >= min(30, c) and k <= 60000 and k >= min(60000, c // 2) else S.false(),
            'half of the queries, but at least 30 and at most 60000')
