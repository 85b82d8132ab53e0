"""C22: score-based learners pick the candidate that maximises their score."""
from engine.api import case


def subset(S, name, n):
    return [i for i in range(n) if S.boolean('%s%d' % (name, i))]


def points(S, n, d=2):
    return S.array([[S.const(i * (j + 1), 7) for j in range(d)] for i in range(n)])


def allowed(S, n, npre):
    """previously selected points and a non-empty set of allowed fresh ones"""
    prev = list(range(n))[n - npre:] if npre else []
    ind = [i for i in range(n - npre) if S.boolean('allowed%d' % i)]
    if not ind:
        S.cut()
    return prev, ind


def as_given(S, ind):
    return set(ind) if S.boolean('set') else list(reversed(ind))


def is_best(S, got, ind, score, metric, label):
    S.check(S.true() if got in ind else S.false(), label + ': the picked candidate is allowed')
    S.observe('picked', got)
    for j in ind:
        if j != got:
            S.check(S.ge(score[got], score[j]), label + ': no allowed candidate scores higher than the picked one')
    S.check(S.eq(metric, score[got]), label + ': the reported score is the score of the picked candidate')


def gp(S, mu, var=None, cov=None):
    m = S.lop.PreferenceGP(S.lop.RBF_kern(0.5, 0.7))
    m.predict = lambda X: (mu[:len(X)], None if var is None else var[:len(X)])
    m.cov = cov
    m.X_train = points(S, 4)
    return m


def psd(S, n):
    """any covariance matrix, from its Cholesky factor"""
    L = [[S.real('L%d%d' % (i, j), *((0.1, 2) if i == j else (-2, 2))) if j <= i else S.const(0) for j in range(n)] for i in range(n)]
    return S.array([[sum((L[i][k] * L[j][k] for k in range(min(i, j) + 1)), S.const(0)) for j in range(n)] for i in range(n)])


def simple(name, n, npre, tier, mk, score):
    @case('C22', '%s: %d candidates, %d selected before' % (name, n, npre), tier=tier, weight=n,
          bounds='any means and variances (ties included), every subset of allowed candidates')
    def h(S):
        mu, var = S.reals('mu', n, -3, 3), S.reals('var', n, 0, 4)
        prev, ind = allowed(S, n, npre)
        l = mk(S.lop.active_learning, S)
        l.set_model(gp(S, mu, var, S.array([[var[i] if i == j else S.const(0) for j in range(n)] for i in range(n)])))
        got = int(l.select_greedy(points(S, n), mu, var, as_given(S, ind), set(prev)))
        sc = [score(S, l, mu[i], var[i]) for i in range(n)]
        sgn = -1 if name == 'worst mean' else 1
        is_best(S, got, ind, [sgn * s for s in sc], sgn * l.sel_metric, name)


for _n, _p, _t in ((2, 0, 'quick'), (3, 1, 'quick'), (4, 0, 'quick'), (5, 1, 'thorough')):
    simple('upper confidence bound', _n, _p, _t, lambda A, S: A.UCBLearner(S.real('alpha', 0, 3)),
           lambda S, l, m, v: m + l.alpha * S.fn('sqrt', v))
    simple('best mean', _n, _p, _t, lambda A, S: A.BestLearner(), lambda S, l, m, v: m)
    simple('worst mean', _n, _p, _t, lambda A, S: A.WorstLearner(), lambda S, l, m, v: m)


def end2end(n, tier):
    @case('C22', 'upper confidence bound, whole query: %d candidates' % n, tier=tier, weight=n,
          bounds='any means and variances, two points requested, every preferred subset')
    def h(S):
        A = S.lop.active_learning
        mu, var = S.reals('mu', n, -3, 3), S.reals('var', n, 0, 4)
        al = S.real('alpha', 0, 3)
        l = A.UCBLearner(al)
        l.set_model(gp(S, mu, var))
        pref = subset(S, 'pref', n) or list(range(n))
        r = [int(i) for i in l.select(points(S, n), 2, [], set(pref))]
        sc = [mu[i] + al * S.fn('sqrt', var[i]) for i in range(n)]
        S.observe('picked', r)
        for j in pref:
            S.check(S.ge(sc[r[0]], sc[j]), 'the first point has the largest score of the preferred ones')
        for j in ([i for i in pref if i != r[0]] or [i for i in range(n) if i != r[0]]):
            S.check(S.ge(sc[r[1]], sc[j]), 'the second point has the largest remaining score')


end2end(3, 'quick')
end2end(4, 'thorough')


@case('C22', 'best candidate of all or of the preferred', bounds='4 candidates, any means, every preferred and previously selected subset')
def _sb(S):
    n = 4
    mu = S.reals('mu', n, -3, 3)
    pref, prev = subset(S, 'pref', n), subset(S, 'prev', n)
    l = S.lop.active_learning.ActiveLearner()
    if len(prev) == n:
        S.check(S.true() if S.expect_raises(lambda: l.select_best(mu, set(pref), set(prev)), Exception) else S.false(),
                'nothing left is reported')
        return
    ok = [i for i in pref if i not in prev] or [i for i in range(n) if i not in prev]
    got = int(l.select_best(mu, set(pref), set(prev) if S.boolean('set') else list(prev)))
    S.check(S.true() if got in ok else S.false(), 'the best point is a fresh, preferred candidate')
    for j in ok:
        S.check(S.ge(mu[got], mu[j]), 'no allowed candidate has a larger mean')


def gv(n, npre, tier):
    @case('C22', 'generalised variance: %d candidates, %d selected before' % (n, npre), tier=tier, weight=n + 4 * npre,
          bounds='any means, any covariance matrix, every subset of allowed candidates')
    def h(S):
        mu, C = S.reals('mu', n, -3, 3), psd(S, n)
        prev, ind = allowed(S, n, npre)
        al = S.real('alpha', 0, 3)
        l = S.lop.active_learning.GV_UCBLearner(al)
        l.set_model(gp(S, mu, S.array([C[i, i] for i in range(n)]), C))
        got = int(l.select_greedy(points(S, n), mu, None, as_given(S, ind), set(prev)))
        sc = [None] * n
        for i in ind:
            Q = prev + [i]
            if npre == 0:
                sc[i] = mu[i] + al * C[i, i]
            elif npre == 1:
                a, b = Q
                sc[i] = mu[i] + al * S.fn('sqrt', C[a, a] * C[b, b] - C[a, b] * C[b, a])
            else:
                a, b, c = Q
                d = (C[a, a] * (C[b, b] * C[c, c] - C[b, c] * C[c, b]) - C[a, b] * (C[b, a] * C[c, c] - C[b, c] * C[c, a])
                     + C[a, c] * (C[b, a] * C[c, b] - C[b, b] * C[c, a]))
                sc[i] = mu[i] + al * d ** (1.0 / 3)
        is_best(S, got, ind, sc, l.sel_metric, 'generalised variance')


gv(2, 0, 'quick')
gv(3, 1, 'quick')
gv(4, 2, 'quick')


def linear(kind, n, M, tier):
    @case('C22', '%s, linear model: %d candidates' % (kind, n), tier=tier, weight=n * M,
          bounds='any %d weight samples in 1 dimension, any candidates' % M)
    def h(S):
        A = S.lop.active_learning
        W = S.reals('w', (M, 1), -2, 2)
        X = S.reals('x', (n, 1), -1, 1)
        m = S.lop.PreferenceLinear()
        al = S.real('alpha', 0, 3)
        l = {'upper confidence bound': A.UCBLearner, 'generalised variance': A.GV_UCBLearner}[kind](al)
        l.set_model(m)
        seen = []
        S.patch(l, 'metropolis_hastings', lambda ll, num, dim=1, **k: (seen.append((ll, num, dim)), W)[1])
        mu = S.reals('mu', n, -3, 3)
        got = int(l.select_greedy(X, mu, None, list(range(n)), set()))
        S.check(S.true() if seen and seen[0][0] == m.loss_func and seen[0][2] == 1 else S.false(),
                'weights are drawn from the posterior of the model')
        sc = []
        for i in range(n):
            v = [X[i, 0] * W[k, 0] for k in range(M)]
            mean = sum(v[1:], v[0]) / M
            q = sum(((x - mean) ** 2 for x in v), S.const(0))
            sc.append(mu[i] + al * (S.fn('sqrt', q / M) if kind == 'upper confidence bound' else q / (M - 1)))
        is_best(S, got, list(range(n)), sc, l.sel_metric, kind)


def gvpair(n):
    @case('C22', 'generalised variance, linear model: %d candidates, one selected before' % n, weight=n,
          bounds='3 weight samples in 2 dimensions, one arbitrary; fixed candidates, any means and alpha')
    def h(S):
        W = S.array([[S.real('w', -2, 2), S.const(1)], [S.const(-1), S.const(1, 2)], [S.const(1, 2), S.const(-2)]])
        X = S.array([[S.const(i), S.const((3 * i * i) % 7 - 2, 2)] for i in range(n)])
        m = S.lop.PreferenceLinear()
        al = S.real('alpha', 0.1, 3)
        l = S.lop.active_learning.GV_UCBLearner(al)
        l.set_model(m)
        S.patch(l, 'metropolis_hastings', lambda *a, **k: W)
        mu = S.reals('mu', n, -3, 3)
        pre = 1
        ind = [i for i in range(n) if i != pre]
        got = int(l.select_greedy(X, mu, None, ind, {pre}))
        v = [[X[i, 0] * W[k, 0] + X[i, 1] * W[k, 1] for k in range(3)] for i in range(n)]

        def cov(a, b):
            ma, mb = sum(v[a][1:], v[a][0]) / 3, sum(v[b][1:], v[b][0]) / 3
            return sum(((x - ma) * (y - mb) for x, y in zip(v[a], v[b])), S.const(0)) / 2
        sc = [None] * n
        for i in ind:
            d = cov(i, i) * cov(pre, pre) - cov(i, pre) ** 2
            S.assume(S.ge(d, 0.001, 0))
            sc[i] = mu[i] + al * S.fn('sqrt', d)
        is_best(S, got, ind, sc, l.sel_metric, 'generalised variance')


gvpair(3)
gvpair(4)
linear('upper confidence bound', 2, 2, 'quick')
linear('generalised variance', 2, 2, 'quick')
linear('upper confidence bound', 3, 3, 'thorough')
linear('generalised variance', 3, 3, 'thorough')


def mutual(n, npre, M, lin, tier, fake=False):
    @case('C22', 'information gain%s%s: %d candidates, %d selected before, %d samples' % (', linear model' if lin else '',
          ', scaled' if fake else '', n, npre, M), tier=tier,
          weight=6 * n, bounds='any %d reward samples, any covariance and means' % M, budget=150)
    def h(S):
        A = S.lop.active_learning
        fk = S.reals('fake', n, 0.2, 2) if fake else None

        def scale(X):
            S.assume(S.gt(total(), S.const(1, 5)))
            return fk

        def total():
            return sum(((W[k, 0] * X[i, 0] if lin else S.mvn_out[0][k, i]) for i in range(n) for k in range(M)), S.const(0)) / (M * n)
        l = A.MutualInfoLearner(fake_func=scale if fake else None)
        l.M = M
        if not lin:
            mu = S.reals('mu', n, -1, 1)
            C = psd(S, n)
            l.set_model(gp(S, mu, None, C))
        else:
            W = S.reals('w', (M, 1), -1, 1)
            mu = None
            l.set_model(S.lop.PreferenceLinear())
            S.patch(l, 'metropolis_hastings', lambda ll, num, dim=1, **k: W[:num])
        X = S.reals('x', (n, 1), -1, 1)
        prev = list(range(n))[n - npre:]
        ind = list(range(n - npre))
        asked = []

        def human(R, beta=1.0, *r, **k):        # C12 decides the choice model itself
            for R0, b0, P in asked:
                if len(R0[0]) == len(R[0]) and all(bool(S.eq(R0[w, q], R[w, q], 0)) for w in range(M) for q in range(len(R[0]))):
                    return S.array(P)
            P = []
            for w in range(len(R)):
                q = S.reals('p', len(R[w]) - 1, 0.05, 0.9)
                t = sum(q, S.const(0))
                S.assume(S.gt(S.const(95, 100), t, 0))
                P.append([x for x in q] + [1 - t])
            asked.append((R, beta, P))
            return S.array(P)
        S.patch(l, 'p_human_choice', human)
        got = int(l.select_greedy(X, mu, None, as_given(S, ind) if npre < 2 else ind, set(prev)))
        if lin:
            R = [[X[i, 0] * W[k, 0] for i in range(n)] for k in range(M)]
        else:
            a, b, size = S.mvn_calls[0]
            S.check(S.all([S.eq(a[i], mu[i]) for i in range(n)] + [S.eq(b[i][j], C[i, j]) for i in range(n) for j in range(n)]),
                    'rewards are drawn with the predicted mean and covariance')
            R = [[S.mvn_out[0][k, i] for i in range(n)] for k in range(M)]
        if fake:
            g = sum(fk[1:], fk[0]) / n / total()
            R = [[r * g for r in q] for q in R]
        sc = [None] * n
        for c in ind:
            Q = prev + [c]
            hit = [t for t in asked if all(bool(S.eq(t[0][k, q], R[k][Q[q]], 1e-9)) for k in range(M) for q in range(len(Q)))]
            S.check(S.true() if hit else S.false(), 'the query of every allowed candidate is answered by every sampled reward')
            if not hit:
                return
            _, beta, P = hit[0]
            S.check(S.eq(beta, l.peakiness), 'the answers have the configured rationality')
            g = S.const(0)
            for k in range(M):
                for q in range(len(Q)):
                    g = g + P[k][q] * S.fn('log', M * P[k][q] / sum((P[w][q] for w in range(1, M)), P[0][q])) / S.fn('log', S.const(2))
            sc[c] = g / M
        is_best(S, got, ind, sc, l.sel_metric, 'information gain')


mutual(2, 1, 2, False, 'quick')
mutual(3, 1, 2, False, 'quick')
mutual(3, 1, 2, True, 'quick')
mutual(2, 1, 2, False, 'quick', True)
mutual(2, 1, 2, True, 'quick', True)

mutual(3, 1, 3, False, 'quick')
mutual(4, 2, 2, False, 'thorough')


def likelihoods(S, n, M, p):
    """arbitrary answer probabilities of every reward sample for every pair"""
    P = []
    for w in range(M):
        T = [[S.const(1, 2)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                T[i][j] = p(w, i, j)
                T[j][i] = 1 - T[i][j]
        P.append(T)
    return P


def acquisition(S, n, M, p):
    A = S.lop.active_learning
    m = gp(S, S.reals('mu', n, -3, 3))
    l = A.AcquisitionSelection(M=M)
    l.set_model(m)
    X, Xr, Qr = points(S, n), points(S, 4), S.np.array([[0, 1]])
    f = {}
    for a in range(M):
        for b in range(a + 1):
            f[a, b] = f[b, a] = S.real('f%d%d' % (a, b), -1, 1)
    rep, qs = S.array([[S.const(w)] * 4 for w in range(M)]), S.array([[S.const(10 + w)] * n for w in range(M)])
    asked = []
    def same(u, v):
        return u is v or (len(u) == len(v) and all(same(i, j) for i, j in zip(u, v)) if hasattr(v, '__len__') else bool(S.eq(u, v, 0)))
    l.alignment = lambda all_rep, Q_rep=None: (asked.append(same(all_rep, rep) and same(Q_rep, Qr)), S.array([[f[a, b] for b in range(M)] for a in range(M)]))[1]
    l.get_representative_Q = lambda *q, **k: (Xr, Qr)
    l.get_samples_from_model = lambda candidate_pts, x_rep=None, indicies=None: (asked.append(
        same(candidate_pts, X) and same(x_rep, Xr)), (rep, qs))[1]
    P = likelihoods(S, n, M, p)

    def pairs(F):
        return S.array(P[int(float(F[0])) - 10])
    m.probits[0].likelihood_all_pairs = pairs
    return l, X, f, P, asked


def frac(w, i, j):
    return (2 + 5 * w + 3 * i + 7 * j * (w + 1)) % 37 + 2


def pair(n, M, symp, tier):
    @case('C22', 'expected alignment of a pair: %d candidates, %d reward samples%s' % (n, M, ', any probabilities' if symp else ''),
          tier=tier, weight=n * M, bounds='any alignments between %d reward samples, %s answer probabilities, every subset of allowed '
          'candidates' % (M, 'any' if symp else 'fixed'), budget=120)
    def h(S):
        l, X, f, P, asked = acquisition(S, n, M, (lambda w, i, j: S.real('p%d%d%d' % (w, i, j), 0.05, 0.95)) if symp else
                                        (lambda w, i, j: S.const(frac(w, i, j), 41)))
        ind = [i for i in range(n) if S.boolean('allowed%d' % i)] if not symp else list(range(n))
        if len(ind) < 2:
            S.cut()
        got = l.select_pair(X, None, None, set(ind), set())
        S.check(S.true() if asked and all(asked) else S.false(), 'the samples of the model are compared on the representative points')
        a, b = int(got[0]), int(got[1])
        S.check(S.true() if a in ind and b in ind and a != b else S.false(), 'the pair consists of two allowed candidates')
        S.observe('pair', sorted((a, b)))

        def score(i, j):
            t = S.const(0)
            for q, o in ((i, j), (j, i)):
                mean = sum((P[w][q][o] for w in range(1, M)), P[0][q][o]) / M
                t = t + sum((f[u, v] * P[u][q][o] * P[v][q][o] for u in range(M) for v in range(M)), S.const(0)) / (M * M * mean)
            return t
        best = score(a, b)
        for i in ind:
            for j in ind:
                if i < j and (i, j) != (min(a, b), max(a, b)):
                    S.check(S.ge(best, score(i, j)), 'no allowed pair has a larger expected alignment')
        S.check(S.eq(l.sel_metric, best), 'the reported score is the expected alignment of the pair')


pair(3, 2, False, 'quick')
pair(2, 2, True, 'quick')
pair(2, 16, False, 'quick')
pair(3, 11, False, 'quick')
pair(4, 2, False, 'thorough')


def greedy(n, npre, M, tier):
    @case('C22', 'expected alignment of a query: %d candidates, %d selected before' % (n, npre), tier=tier, weight=n * M,
          bounds='any alignments between %d reward samples, fixed answer probabilities, every subset of allowed candidates' % M)
    def h(S):
        l, X, f, P, asked = acquisition(S, n, M, lambda w, i, j: S.const(frac(w, i, j), 41))
        prev, ind = allowed(S, n, npre)
        got = int(l.select_greedy(X, S.reals('m', n, 0, 1), None, as_given(S, ind), set(prev)))
        S.check(S.true() if asked and all(asked) else S.false(), 'the samples of the model are compared on the representative points')
        sc = [None] * n
        for c in ind:
            Q = prev + [c]
            pq = []
            for w in range(M):
                r = []
                for q in Q:
                    t = S.const(1)
                    for o in Q:
                        if o != q:
                            t = t * P[w][q][o]
                    r.append(t)
                z = sum(r[1:], r[0])
                pq.append([x / z for x in r])
            t = S.const(0)
            for q in range(len(Q)):
                mean = sum((pq[w][q] for w in range(1, M)), pq[0][q]) / M
                t = t + sum((f[u, v] * pq[u][q] * pq[v][q] for u in range(M) for v in range(M)), S.const(0)) / (M * M * mean)
            sc[c] = t
        is_best(S, got, ind, sc, l.sel_metric, 'expected alignment')


greedy(3, 1, 2, 'quick')
greedy(4, 2, 2, 'quick')
greedy(5, 3, 2, 'quick')
greedy(5, 2, 3, 'thorough')


def absolute(n, M, tier):
    @case('C22', 'expected alignment of a rating: %d candidates, %d reward samples' % (n, M), tier=tier, weight=n * M,
          bounds='any alignments between %d reward samples, any answer densities at the point where the integrand is evaluated, '
          'every subset of allowed candidates' % M)
    def h(S):
        A = S.lop.active_learning
        m = gp(S, S.reals('mu', n, -3, 3))
        l = A.AbsAcquisition(M=M)
        l.set_model(m)
        X, Xr, Qr = points(S, n), points(S, 4), S.np.array([[0, 1]])
        f = {}
        for a in range(M):
            for b in range(a + 1):
                f[a, b] = f[b, a] = S.real('f%d%d' % (a, b), -1, 1)
        R = [[S.const(3 * w - 2 * i, 5) for i in range(n)] for w in range(M)]
        D = [[S.const(frac(w, i, 0), 10) for i in range(n)] for w in range(M)]
        ind = [i for i in range(n) if S.boolean('allowed%d' % i)]
        if not ind:
            S.cut()
        l.alignment = lambda all_rep, Q_rep=None: S.array([[f[a, b] for b in range(M)] for a in range(M)])
        l.get_representative_Q = lambda *q, **k: (Xr, Qr)

        def samples(candidate_pts, x_rep=None, indicies=None):
            at = []
            for x in candidate_pts:
                k = [i for i in range(n) if all(bool(S.eq(x[j], X[i, j], 0)) for j in range(len(x)))]
                at.append(k[0] if k else None)
            S.check(S.true() if None not in at and (indicies is None or at == [int(i) for i in indicies]) else S.false(),
                    'rewards are drawn for the allowed candidates')
            if None in at:
                S.cut()
            return None, S.array([[R[w][i] for i in at] for w in range(M)])
        l.get_samples_from_model = samples
        u = S.real('score', 0.01, 0.99)

        class Beta:
            @staticmethod
            def pdf(q, a, b):
                S.check(S.eq(q, u), 'the integrand is the density at the integration point')
                out = []
                for w in range(M):
                    r = []
                    for j in range(len(a[w])):
                        k = [i for i in range(n) if bool(S.eq(a[w][j], al[w][i], 0)) and bool(S.eq(b[w][j], be[w][i], 0))]
                        if not k:
                            S.check(S.false(), 'answers are drawn from the score model of the candidate')
                            S.cut()
                        r.append(D[w][k[0]])
                    out.append(r)
                return S.array(out)
        m.probits[2].get_alpha_beta = lambda F: (F + 10, 3 - F)       # C10 decides the score model itself
        al, be = m.probits[2].get_alpha_beta(S.array(R))
        S.patch(l, 'beta', Beta)

        def quad(fun, a, b, *r, **k):
            S.check(S.true() if 0 <= a <= 0.001 and 0.999 <= b <= 1 else S.false(), 'the whole range of scores is integrated')
            return fun(u, *k.get('args', ())), 0.0
        S.quad = quad
        got = int(l.select_greedy(X, S.reals('m', n, 0, 1), None, as_given(S, ind), set()))
        sc = [None] * n
        for c in ind:
            mean = sum((D[w][c] for w in range(1, M)), D[0][c]) / M
            sc[c] = sum((f[v, w] * D[v][c] * D[w][c] for v in range(M) for w in range(M)), S.const(0)) / (M * M * mean)
        is_best(S, got, ind, sc, l.sel_metric, 'expected alignment of a rating')


absolute(3, 2, 'quick')
absolute(4, 3, 'thorough')


def bayes(n, method, tier):
    @case('C22', 'information about the best candidate, pair of %d (%s)' % (n, method), tier=tier, weight=n * 3,
          bounds='any belief, fixed answer probabilities, every subset of allowed candidates', budget=150)
    def h(S):
        A = S.lop.active_learning
        S.approxcdf = lambda *a, **k: S.const(1, 2)
        m = gp(S, S.reals('mu', n, -3, 3))
        l = A.BayesInfoGain(p_q_B_method=method)
        l.set_model(m)
        b = S.reals('b', n - 1, 0.1, 0.8)
        last = 1 - sum(b[1:], b[0])
        S.assume(S.gt(last, S.const(1, 10), 0))
        b = [x for x in b] + [last]
        l.p_B_pref_gp = lambda *a, **k: S.array(b)
        P = likelihoods(S, n, 1, lambda w, i, j: S.const(frac(w, i, j), 41))[0]
        m.probits[0].likelihood_all_pairs = lambda F: S.array(P)
        ind = [i for i in range(n) if S.boolean('allowed%d' % i)] if n > 2 else [0, 1]
        if len(ind) < 2:
            S.cut()
        got = l.select_pair(points(S, n), S.reals('m', n, 0, 1), None, set(ind), set())
        u, v = int(got[0]), int(got[1])
        S.check(S.true() if u in ind and v in ind and u != v else S.false(), 'the pair consists of two allowed candidates')
        hi = S.const(999, 1000) if method == '999' else S.const(99, 100)

        def ent(q):
            return -sum((x * S.fn('log', x) for x in q[1:]), q[0] * S.fn('log', q[0]))

        def after(i, j):
            w = [b[k] * (hi if k == i else 1 - hi if k == j else P[i][j]) for k in range(n)]
            z = sum(w[1:], w[0])
            return ent([x / z for x in w])

        def score(i, j):
            return ent(b) - (P[i][j] * after(i, j) + P[j][i] * after(j, i))
        best = score(u, v)
        for i in ind:
            for j in ind:
                if i < j and {i, j} != {u, v}:
                    S.check(S.ge(best, score(i, j)), 'no allowed pair tells more about the best candidate')
        S.check(S.eq(l.sel_metric, best), 'the reported score is the information gained by the pair')


bayes(2, '999', 'quick')
bayes(2, '99', 'quick')
bayes(3, '999', 'thorough')


@case('C22', 'information about the best candidate, one more point', bounds='4 candidates, any expected entropies')
def _bg(S):
    n = 4
    A = S.lop.active_learning
    S.approxcdf = lambda *a, **k: S.const(1, 2)
    m = gp(S, S.reals('mu', n, -3, 3))
    l = A.BayesInfoGain()
    l.set_model(m)
    l.p_B_pref_gp = lambda *a, **k: S.array([S.const(1, n)] * n)
    T = [[S.const(1, 2)] * n] * n
    m.probits[0].likelihood_all_pairs = lambda F: S.array(T)
    prev, ind = allowed(S, n, 1)
    H = S.reals('H', n, 0, 1)
    l.calc_H_B_Q = lambda Q, *a, **k: H[[int(q) for q in Q if int(q) not in prev][0]]
    got = int(l.select_greedy(points(S, n), S.reals('m', n, 0, 1), None, as_given(S, ind), set(prev)))
    h0 = S.fn('log', S.const(n))
    is_best(S, got, ind, [h0 - H[i] for i in range(n)], l.sel_metric, 'information about the best candidate')


def expected_entropy(n, Q, method, tier='quick'):
    @case('C22', 'expected entropy of the best candidate, query of %d of %d (%s)' % (len(Q), n, method), tier=tier, weight=n * 3,
          bounds='any belief, fixed answer probabilities', budget=150)
    def h(S):
        A = S.lop.active_learning
        S.approxcdf = lambda *a, **k: S.const(1, 2)
        l = A.BayesInfoGain(p_q_B_method=method)
        l.set_model(gp(S, S.reals('mu', n, -3, 3)))
        b = S.reals('b', n - 1, 0.1, 0.8)
        last = 1 - sum(b[1:], b[0])
        S.assume(S.gt(last, S.const(1, 10), 0))
        b = [x for x in b] + [last]
        P = likelihoods(S, n, 1, lambda w, i, j: S.const(frac(w, i, j), 41))[0]
        got = l.calc_H_B_Q(S.np.array(Q), S.array(b), S.array(P))

        def prod(xs):
            t = S.const(1)
            for x in xs:
                t = t * x
            return t

        def likely(p):
            if method == 'probit':
                return p if bool(S.ge(p, S.const(1, 2), 0)) else 1 - p
            return S.const(999, 1000) if method == '999' else S.const(99, 100)
        pq, pqB = [], []
        for q in Q:
            others = [P[q][o] for o in Q if o != q]
            pq.append(prod(others))
            pqB.append([prod([likely(p) for p in others]) if q == B else prod(others) for B in range(n)])
        z = sum(pq[1:], pq[0])
        pq = [x / z for x in pq]
        want = S.const(0)
        for k in range(len(Q)):
            w = []
            for B in range(n):
                zB = sum((pqB[j][B] for j in range(1, len(Q))), pqB[0][B])
                w.append(pqB[k][B] / zB * b[B])
            zw = sum(w[1:], w[0])
            w = [x / zw for x in w]
            want = want - pq[k] * sum((x * S.fn('log', x) for x in w[1:]), w[0] * S.fn('log', w[0]))
        S.check(S.eq(got, want), 'the expected entropy is taken over the answers and the belief each of them leaves')


for _m in ('probit', '999', '99'):
    expected_entropy(3, [2, 0], _m)
    expected_entropy(3, [0, 1, 2], _m, 'quick' if _m == 'probit' else 'thorough')


def again(name, mk, bounds, kmax=2):
    @case('C22', 'a second query of the same learner, %s' % name, bounds=bounds)
    def h(S):
        A = S.lop.active_learning
        S.approxcdf = lambda *a, **k: S.const(1, 2)
        big, small = 4, 3
        mus = {n: [S.const((7 * i + 3 * n) % 11, 2) for i in range(n)] for n in (big, small)}
        var = {n: list(S.reals('v%d' % n, n, 1, 4)) for n in (big, small)}
        bel = {n: [S.const(2 + (i + n) % 3, 10 * n) for i in range(n)] for n in (big, small)}
        first = S.boolean('larger query first')
        m = gp(S, S.reals('unused', 1, 0, 1))

        def predict(X):
            n = len(X)
            m.cov = S.array([[var[n][i] if i == j else S.const(1, 4) for j in range(n)] for i in range(n)])
            return S.array(mus[n]), S.array(var[n])
        m.predict = predict

        def pairs(F):
            n = len(F)
            return S.array([[S.const(1, 2) if i == j else S.const(40 + (7 * min(i, j) + 3 * max(i, j) + n) % 9 * (1 if i < j else -1), 80)
                             for j in range(n)] for i in range(n)])
        m.probits[0].likelihood_all_pairs = pairs

        def learner():
            l = mk(A, S)
            l.set_model(m)
            l.p_B_pref_gp = lambda pts, mu, *a, **k: S.array(bel[len(mu)])
            return l
        one, two = (big, small) if first else (small, big)
        k = 1 + S.choice('k', kmax) if kmax > 1 else 1
        l, o = learner(), learner()
        l.select(points(S, one), kmax, [one - 1])
        a = [int(i) for i in l.select(points(S, two), k, [0])]
        b = [int(i) for i in o.select(points(S, two), k, [0])]
        S.check(S.true() if sorted(a) == sorted(b) else S.false(), 'the second query is the one a new learner would make')
        if hasattr(o, 'sel_metric'):
            S.check(S.eq(l.sel_metric, o.sel_metric), 'the reported score belongs to the second query')


again('upper confidence bound', lambda A, S: A.UCBLearner(1), 'fixed means, any variances')
again('best mean', lambda A, S: A.BestLearner(), 'fixed means, any variances')
again('generalised variance', lambda A, S: A.GV_UCBLearner(1), 'fixed means, any variances')
again('information about the best candidate', lambda A, S: A.BayesInfoGain(), 'fixed means and beliefs', 1)
