"""C23: scores of queries are built from normalised probabilities, alignments and valid representative queries."""
from itertools import combinations
from engine.api import case


def points(S, n, d=1):
    return S.array([[S.const(3 * i + j + 1, 7) for j in range(d)] for i in range(n)])


def belief(n, tier):
    @case('C23', 'probability of being the best, GP: %d candidates' % n, tier=tier, weight=n,
          bounds='any means and covariances, any joint comparison probabilities')
    def h(S):
        A = S.lop.active_learning
        m = S.lop.PreferenceGP(S.lop.RBF_kern(0.5, 0.7))
        mu = S.reals('mu', n, -3, 3)
        C = S.array([[S.real('c%d%d' % (max(i, j), min(i, j)), -1, 3) if i >= j else None for j in range(n)] for i in range(n)])
        for i in range(n):
            for j in range(i):
                C[j, i] = C[i, j]
        m.cov = C
        l = A.ActiveLearner()
        l.set_model(m)
        asked = []

        def cdf(mean, cov, *r, **k):
            asked.append((mean, cov, S.real('P', 0.01, 1)))
            return asked[-1][2]
        S.patch(l, 'calc_cdf', cdf)
        p = l.p_B_pref_gp(points(S, n), mu)
        S.check(S.true() if len(asked) == n and len(p) == n else S.false(), 'every candidate gets a probability')
        tot = sum((a[2] for a in asked[1:]), asked[0][2])
        for i in range(n):
            oth = [j for j in range(n) if j != i]
            mean, cov, P = asked[i]
            S.check(S.all([S.eq(mean[a], mu[oth[a]] - mu[i]) for a in range(n - 1)]), 'the comparison uses the differences of the means')
            S.check(S.all([S.eq(cov[a][b], C[i, i] + C[oth[a], oth[b]] - C[i, oth[a]] - C[i, oth[b]])
                           for a in range(n - 1) for b in range(n - 1)]), 'the comparison uses the covariance of the differences')
            S.check(S.all([S.ge(p[i], 0), S.eq(p[i] * tot, P)]), 'the probabilities are proportional to the comparison probabilities')
        S.check(S.eq(sum((p[i] for i in range(1, n)), p[0]), 1), 'the probabilities add up to one')


belief(2, 'quick')
belief(3, 'quick')
belief(4, 'quick')
belief(6, 'thorough')


def belief_lin(n, M, tier):
    @case('C23', 'probability of being the best, linear: %d candidates, %d samples' % (n, M), tier=tier, weight=n ** M / 4.0,
          bounds='any weight samples and candidates in 1 dimension')
    def h(S):
        l = S.lop.active_learning.ActiveLearner()
        m = S.lop.PreferenceLinear()
        l.set_model(m)
        W, X = S.reals('w', (M, 1), -2, 2), S.reals('x', (n, 1), -1, 1)
        seen = []
        S.patch(l, 'metropolis_hastings', lambda ll, num, dim=1, **k: (seen.append(ll == m.loss_func and dim == 1), W)[1])
        p = l.p_B_pref_linear(X, None)
        S.check(S.true() if seen == [True] else S.false(), 'weights are drawn from the posterior of the model')
        S.check(S.eq(sum((p[i] for i in range(1, n)), p[0]), 1), 'the probabilities add up to one')
        S.observe('p', p)
        for i in range(n):
            best = [S.all([S.ge(X[i, 0] * W[k, 0], X[j, 0] * W[k, 0], 0) for j in range(n)]) for k in range(M)]
            strict = [S.all([S.gt(X[i, 0] * W[k, 0], X[j, 0] * W[k, 0], 0) for j in range(n) if j != i]) for k in range(M)]
            up = sum((S.ite(b, S.const(1), S.const(0)) for b in best), S.const(0))
            lo = sum((S.ite(b, S.const(1), S.const(0)) for b in strict), S.const(0))
            S.check(S.all([S.ge(p[i] * M, lo), S.ge(up, p[i] * M)]), 'the probability is the share of samples where the candidate is best')


belief_lin(2, 2, 'quick')
belief_lin(3, 2, 'quick')
belief_lin(2, 3, 'quick')
belief_lin(3, 3, 'thorough')


def learner(S, kind, M, **kw):
    A = S.lop.active_learning
    l = A.AcquisitionSelection(M=M, alignment_f=kind, **kw)
    m = S.lop.PreferenceGP(S.lop.RBF_kern(0.5, 0.7))
    l.set_model(m)
    return l, m


def grid(S, f, M, N=None):
    S.check(S.true() if tuple(f.shape) == (M, N or M) else S.false(), 'every pair of reward samples is compared')


def rho(M, n, tier):
    @case('C23', 'difference of choice probabilities: %d samples, %d points' % (M, n), tier=tier, weight=M * n,
          bounds='any sampled rewards in [-3,3]')
    def h(S):
        l, m = learner(S, 'rho', M)
        R = S.reals('r', (M, n), -3, 3)
        f = l.alignment(R, S.np.array([[0, 1]]))
        grid(S, f, M)
        E = [[S.fn('exp', R[a, i]) for i in range(n)] for a in range(M)]
        Z = [sum(e[1:], e[0]) for e in E]
        for a in range(M):
            S.check(S.eq(f[a, a], 0), 'a reward is perfectly aligned with itself')
            for b in range(M):
                S.check(S.eq(f[a, b], f[b, a]), 'alignment is symmetric')
                S.check(S.ge(0, f[a, b]), 'no pair is better aligned than a reward with itself')
                if a != b:
                    d = sum(((E[a][i] / Z[a] - E[b][i] / Z[b]) ** 2 for i in range(n)), S.const(0))
                    S.check(S.eq(f[a, b] * f[a, b], d), 'the alignment is the distance between the choice probabilities')


rho(2, 2, 'quick')
rho(3, 2, 'quick')
rho(2, 3, 'quick')


def pearson(S, x, y):
    n = len(x)
    mx, my = sum(x[1:], x[0]) / n, sum(y[1:], y[0]) / n
    c = sum(((a - mx) * (b - my) for a, b in zip(x, y)), S.const(0))
    vx, vy = sum(((a - mx) ** 2 for a in x), S.const(0)), sum(((b - my) ** 2 for b in y), S.const(0))
    return c, vx, vy


def spread(S, R):
    """correlations need rewards that are not all equal"""
    for r in R:
        c, v, _ = pearson(S, list(r), list(r))
        S.assume(S.gt(v, S.const(1, 100), 0))


def corr(kind, M, n, between, tier, one=False):
    @case('C23', '%s%s: %d samples, %d points%s' % (kind, ' between two sets of samples' if between else '', M, n, ', one of them arbitrary' if one else ''),
          tier=tier, weight=M * n, bounds='any sampled rewards that are not constant' + (', all but one sample fixed' if one else ''))
    def h(S):
        l, m = learner(S, kind, M)
        R = S.reals('r', (M, n), -2, 2)
        T = S.reals('t', (M, n), -2, 2) if between else R
        if one:
            R = S.array([[S.const((5 * a + 3 * i * i + 2 * i) % 4) for i in range(n)] for a in range(M)])
            T = S.array([list(T[0])] + [[S.const((3 * a + 2 * i * i) % 5) for i in range(n)] for a in range(1, M)])
            if not between:
                R = T = S.array([list(T[0])] + [list(r) for r in R[1:]])
        spread(S, R)
        if between:
            spread(S, T)
        f = l.alignment_between(R, T) if between else l.alignment(R, S.np.array([[0, 1]]))
        grid(S, f, M)

        def ranks(r):
            return [S.const(1 + sum(2 * bool(S.gt(r[i], x, 0)) + (j != i) * (not bool(S.gt(r[i], x, 0)) and not bool(S.gt(x, r[i], 0)))
                                    for j, x in enumerate(r)) / 2) if False else
                    S.const(2 + sum((2 if bool(S.gt(r[i], x, 0)) else 0 if bool(S.gt(x, r[i], 0)) else 1)
                                    for j, x in enumerate(r) if j != i), 2) for i in range(n)]
        for a in range(M):
            for b in range(M):
                x, y = list(R[a]), list(T[b])
                if kind == 'spearman':
                    x, y = ranks(x), ranks(y)
                c, vx, vy = pearson(S, x, y)
                # r = c / sqrt(vx vy)
                if kind == 'spearman':
                    S.check(S.all([S.eq(f[a, b] ** 2 * (vx * vy), c * c), S.ge(f[a, b] * c, 0)]),
                            'the alignment is the correlation of the ranks')
                    S.check(S.all([S.ge(1, f[a, b]), S.ge(f[a, b], -1)]), 'the alignment lies between -1 and 1')
                else:
                    r = 1 - 2 * f[a, b] ** 2
                    S.check(S.all([S.eq(r ** 2 * (vx * vy), c * c), S.ge(r * c, 0)]),
                            'the alignment is minus the Pearson distance')
                    S.check(S.ge(0, f[a, b]), 'no pair is better aligned than a reward with itself')
                if not between:
                    S.check(S.eq(f[a, b], f[b, a]), 'alignment is symmetric')
                    if a == b:
                        S.check(S.eq(f[a, b], 1 if kind == 'spearman' else 0), 'a reward is perfectly aligned with itself')


for _b in (False, True):
    corr('spearman', 2, 2, _b, 'quick')
    corr('epic', 2, 2, _b, 'quick')
    corr('epic', 2, 3, _b, 'quick')
corr('spearman', 2, 3, False, 'quick')
corr('spearman', 2, 3, True, 'quick', True)
corr('spearman', 2, 4, True, 'quick', True)
corr('spearman', 3, 4, True, 'quick', True)
corr('spearman', 3, 4, False, 'quick', True)
corr('epic', 3, 4, True, 'quick', True)
corr('epic', 3, 3, True, 'thorough')
corr('spearman', 3, 2, True, 'thorough')


@case('C23', 'two sets of samples have to match', bounds='2 and 3 samples, 1 or 2 points')
def _shapes(S):
    kind = ('epic', 'spearman', 'one')[S.choice('kind', 3)]
    l, m = learner(S, kind, 2)
    R, T = S.reals('r', (2, 2), -2, 2), S.reals('t', (3, 2), -2, 2)
    S.check(S.true() if S.expect_raises(lambda: l.alignment_between(R, T), Exception) else S.false(),
            'sets of samples of different size are refused')
    for f in (l.alignment(R[:, :1], None), l.alignment_between(R[:, :1], R[:, 1:])):
        grid(S, f, 2)
        S.check(S.all([S.eq(f[a, b], 0) for a in range(2) for b in range(2)]), 'a single point says nothing about alignment')


def loglik(M, n, size, tier):
    @case('C23', 'log-likelihood alignment: %d samples, queries of %d' % (M, size), tier=tier, weight=M * n,
          bounds='any sampled rewards, any answer probabilities')
    def h(S):
        l, m = learner(S, 'loglikelihood', M)
        R = S.array([[S.const((5 * w + 3 * i) % 7 + w, 7) for i in range(n)] for w in range(M)])
        P = []
        for w in range(M):
            T = [[S.const(1, 2)] * n for _ in range(n)]
            for i in range(n):
                for j in range(i):
                    T[i][j] = S.real('p%d%d%d' % (w, i, j), 0.05, 0.95)
                    T[j][i] = 1 - T[i][j]
            P.append(T)
        vals = [[float((5 * w + 3 * i) % 7 + w) for i in range(n)] for w in range(M)]
        m.probits[0].likelihood_all_pairs = lambda F: S.array(P[[w for w in range(M) if all(abs(float(F[i]) * 7 - vals[w][i]) < 1e-9
                                                                                          for i in range(n))][0]])
        Q = list(combinations(range(n), size))
        f = l.alignment(R, S.np.array(Q))
        grid(S, f, M)

        def lp(u, v):
            """log-probability that reward v gives the answers reward u likes best"""
            t = S.const(0)
            for q in Q:
                best = max(range(size), key=lambda k: vals[u][q[k]])
                w = []
                for k in range(size):
                    x = S.const(1)
                    for o in range(size):
                        if o != k:
                            x = x * P[v][q[k]][q[o]]
                    w.append(x)
                t = t + S.fn('log', w[best] / sum(w[1:], w[0]))
            return t
        for a in range(M):
            for b in range(M):
                S.check(S.eq(f[a, b], lp(a, b) + lp(b, a)), 'the alignment is the log-probability of the other reward\'s answers')
                S.check(S.eq(f[a, b], f[b, a]), 'alignment is symmetric')


loglik(2, 3, 2, 'quick')
loglik(2, 3, 3, 'quick')
loglik(3, 3, 2, 'thorough')


def rep(ntrain, ncand, npts, nQ, alts, tier, draws=14):
    @case('C23', 'representative queries: %d training points, %d candidates, %d points, %d queries of %d' % (ntrain, ncand, npts, nQ, alts),
          tier=tier, weight=ntrain * nQ, bounds='any draws', ctx={'max_draws': draws}, budget=100 if tier == 'quick' else 1000)
    def h(S):
        l, m = learner(S, 'rho', 2, rep_Q_data={'num_pts': npts, 'num_Q': nQ})
        X = points(S, ntrain + ncand)
        C = X[ntrain:]
        m.X_train = X[:ntrain] if ntrain else None
        if alts:
            l.num_alts = alts
        Xr, Q = l.get_representative_Q(C)
        if not ntrain:
            S.check(S.true() if Xr is None and Q is None else S.false(), 'without data there are no representative queries')
            return
        pool = list(range(ntrain)) if ntrain >= 4 else list(range(ntrain + ncand))
        N = min(npts, len(pool))
        S.check(S.true() if len(Xr) == N else S.false(), 'as many points as asked for are used, or all')
        ids = []
        for r in Xr:
            k = [i for i in pool if bool(S.eq(r[0], X[i, 0], 0))]
            ids.append(k[0] if k else None)
        S.observe('points', ids)
        S.check(S.true() if None not in ids and len(set(ids)) == len(ids) else S.false(),
                'representative points are distinct known points')
        size = max(alts, 2)
        qs = [tuple(int(i) for i in q) for q in Q]
        S.observe('queries', qs)
        S.check(S.true() if len(qs) == min(nQ, len(list(combinations(range(N), size)))) else S.false(), 'as many queries as asked for are used, or all')
        S.check(S.true() if all(len(q) == size and len(set(q)) == size and all(0 <= i < N for i in q) for q in qs) else S.false(),
                'every query has distinct valid points')
        S.check(S.true() if len({tuple(sorted(q)) for q in qs}) == len(qs) else S.false(), 'no query is repeated')


rep(0, 3, 3, 2, 2, 'quick')
rep(4, 2, 2, 1, 2, 'quick')
rep(3, 0, 3, 2, 2, 'quick', 8)
rep(3, 0, 3, 3, 2, 'thorough', 10)
rep(4, 1, 3, 2, 2, 'thorough', 9)
rep(2, 1, 6, 1, 2, 'quick')
rep(3, 1, 4, 1, 1, 'quick')
rep(4, 1, 3, 1, 3, 'quick')
rep(5, 1, 3, 1, 0, 'quick')


def many(alts, nQ, tier='quick', pts=5):
    @case('C23', 'many representative queries: %d of %d%s' % (nQ, alts, '' if pts == 5 else ', %d points' % pts), tier=tier, bounds='5 training points, one draw of the queries')
    def h(S):
        l, m = learner(S, 'rho', 2, rep_Q_data={'num_pts': pts, 'num_Q': nQ})
        m.X_train = points(S, 5)
        l.num_alts = alts
        allq = list(combinations(range(pts), alts))
        asked = []

        def unique(N, num, size):       # C14 decides the sampling itself
            asked.append((int(N), int(num), int(size)))
            S.check(S.true() if int(num) <= len(list(combinations(range(int(N)), int(size)))) else S.false(),
                    'no more queries are asked for than there are')
            return S.np.array([list(q) for q in combinations(range(int(N)), int(size))][:int(num)])
        S.patch(l, 'sample_unique_sets', unique)
        S.max_draws = S.ndraws + 6
        Xr, Q = l.get_representative_Q(points(S, 2))
        qs = {tuple(sorted(int(i) for i in q)) for q in Q}
        S.check(S.true() if len(Xr) == pts and len(qs) == len(Q) == min(nQ, len(allq)) and qs <= set(allq) else S.false(),
                'as many queries as asked for are used, or all')


many(2, 8)
many(2, 12)
many(3, 7)
many(4, 9)
many(2, 8, pts=4)
many(2, 8, pts=3)
many(3, 6, pts=4)


@case('C23', 'stored representative points', bounds='any 20 to 30 stored points in 10 environments')
def _stable(S):
    per = 2 + S.choice('per environment', 2)
    l, m = learner(S, 'rho', 2, rep_Q_method='stable', rep_Q_data={'filename': 'points.npy'})
    l.num_alts = 2
    X = points(S, 10 * per)
    l_np = S.np
    S.restore.append((l_np, 'load', l_np.load))
    l_np.load = lambda *a, **k: X
    Xr, Q = l.get_representative_Q(None)
    qs = {tuple(sorted(int(i) for i in q)) for q in Q}
    S.check(S.true() if len(qs) == len(Q) == 10 * (per * (per - 1) // 2) else S.false(), 'every pair inside an environment is asked once')
    S.check(S.true() if all(a != b and a // per == b // per and 0 <= a and b < 10 * per for a, b in qs) else S.false(),
            'queries stay inside an environment')


@case('C23', 'an unknown way of choosing representative points', bounds='one call')
def _unknown(S):
    l, m = learner(S, 'rho', 2, rep_Q_method='other')
    S.check(S.true() if S.expect_raises(lambda: l.get_representative_Q(points(S, 2)), ValueError) else S.false(), 'an unknown method is refused')


def samples(kind, M, n, nr, tier):
    @case('C23', 'reward samples, %s: %d candidates, %d representative points' % (kind, n, nr), tier=tier, weight=M * n,
          bounds='any model, any draws')
    def h(S):
        l, m = learner(S, 'rho', M)
        X, Y = S.reals('x', (n, 1), -1, 1), S.reals('y', (nr, 1), -1, 1) if nr else None
        if kind == 'GP':
            tot = n + nr
            mu = S.reals('mu', tot, -2, 2)
            C = S.reals('C', (tot, tot), -1, 1)

            def predict(Z):
                S.check(S.true() if len(Z) == tot else S.false(), 'rewards of both kinds of points are drawn together')
                S.check(S.all([S.eq(Z[i][0], X[i, 0], 0) for i in range(n)] + [S.eq(Z[n + i][0], Y[i, 0], 0) for i in range(nr)]),
                        'rewards of both kinds of points are drawn together')
                m.cov = C
                return mu, None
            m.predict = predict
            m.cov = S.array([[S.const(9)]])
            rep_s, q_s = l.get_samples_from_model(X, Y)
            a, b, size = S.mvn_calls[-1]
            S.check(S.all([S.eq(a[i], mu[i], 0) for i in range(tot)] + [S.eq(b[i][j], C[i, j], 0) for i in range(tot) for j in range(tot)]),
                    'the predicted means and covariances are used')
            D = S.mvn_out[-1]
            want = [[D[k, i] for i in range(tot)] for k in range(M)]
        else:
            W = S.reals('w', (M, 1), -2, 2)
            m = S.lop.PreferenceLinear()
            l.set_model(m)
            S.patch(l, 'metropolis_hastings', lambda ll, num, dim=1, **k: W if ll == m.loss_func and num == M and dim == 1 else None)
            rep_s, q_s = l.get_samples_from_model(X, Y)
            want = [[X[i, 0] * W[k, 0] for i in range(n)] + [Y[i, 0] * W[k, 0] for i in range(nr)] for k in range(M)]
        grid(S, q_s, M, n)
        S.check(S.all([S.eq(q_s[k, i], want[k][i]) for k in range(M) for i in range(n)]), 'every candidate gets the rewards drawn for it')
        if nr:
            grid(S, rep_s, M, nr)
            S.check(S.all([S.eq(rep_s[k, i], want[k][n + i]) for k in range(M) for i in range(nr)]),
                    'every representative point gets the rewards drawn for it')
        # shared samples
        l.set_samples(rep_s, q_s)
        sub = [i for i in range(n) if S.boolean('sub%d' % i)]
        if len(sub) > 1 and S.boolean('last first'):
            sub = sub[::-1]
        r2, q2 = l.get_samples_from_model(X[sub] if sub else X, Y, **({'indicies': sub} if sub else {}))
        S.check(S.all([S.eq(q2[k, j], q_s[k, i], 0) for k in range(M) for j, i in enumerate(sub or range(n))]),
                'shared samples are used for the candidates they belong to')


samples('GP', 2, 2, 1, 'quick')
samples('GP', 2, 3, 2, 'quick')
samples('GP', 2, 2, 2, 'quick')
samples('GP', 2, 2, 0, 'quick')
samples('linear', 2, 2, 1, 'quick')
samples('linear', 3, 3, 2, 'quick')
samples('linear', 2, 2, 2, 'quick')
samples('linear', 2, 2, 0, 'quick')
