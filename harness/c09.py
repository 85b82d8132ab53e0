"""C09: ordinal ratings form a distribution with exact derivatives."""
from engine.api import case

LIM, SLO, SHI = 4.0, 0.5, 8.0
BD = 'latent values in [-4,4], sigma in [0.5,8], spread b in [0.1,5]'


def probit(S, n):
    s, b = S.real('sigma', SLO, SHI), S.real('b', 0.1, 5.0)
    return S.lop.OrdinalProbit(s, b, n_ordinals=n), s, b


def lab(S, ys, idx):
    return (S.np.array(ys), S.np.array(idx))


def dist(n, tier):
    @case('C09', 'distribution %d ratings' % n, tier=tier, bounds='%d ratings, %s' % (n, BD))
    def h(S):
        p, s, b = probit(S, n)
        F = S.reals('f', 1, -LIM, LIM)
        t = 0
        for r in range(1, n + 1):
            a = p.likelihood_each(lab(S, [r], [0]), F)[0]
            S.check(S.ge(a, 0), 'a rating probability is not negative')
            S.check(S.ge(1, a), 'a rating probability is at most one')
            S.check(S.eq(p.likelihood(lab(S, [r], [0]), F), a), 'the likelihood of one rating is its probability')
            t = t + a
        S.check(S.eq(t, 1), 'the probabilities of all ratings add up to one')
        # documented cut points: n-1 equally spaced values from 0 to b
        c = 0
        for r in range(1, n):
            c = c + p.likelihood_each(lab(S, [r], [0]), F)[0]
            cut = b * (r - 1) / (n - 2) if n > 2 else S.const(0)
            S.check(S.eq(c, S.fn('ndtr', (cut - F[0]) / s)), 'a rating up to r has the probability of its cut point')

    @case('C09', 'order %d ratings' % n, tier=tier, bounds='%d ratings, %s, two latent values' % (n, BD))
    def g(S):
        p, s, b = probit(S, n)
        F = S.reals('f', 2, -LIM, LIM)
        S.assume(S.ge(F[1], F[0], 0))
        c0 = c1 = 0
        for r in range(1, n):
            y = lab(S, [r, r], [0, 1])
            a = p.likelihood_each(y, F)
            c0, c1 = c0 + a[0], c1 + a[1]
            S.check(S.ge(c0, c1), 'a larger latent value is at most as likely to be rated r or lower')

    @case('C09', 'extreme values %d ratings' % n, tier=tier, bounds='%d ratings, latent values in [-1e6,1e6], any sigma in [0.5,8]' % n)
    def e(S):
        p, s, b = probit(S, n)
        F = S.reals('f', 1, -1e6, 1e6)
        t = 0
        for r in range(1, n + 1):
            a = p.likelihood_each(lab(S, [r], [0]), F)[0]
            S.check(S.ge(a, 0), 'a rating probability is not negative')
            t = t + a
        S.check(S.eq(t, 1), 'the probabilities of all ratings add up to one')


for _n in (2, 3, 5):
    dist(_n, 'quick')
dist(4, 'quick')
dist(7, 'thorough')


def deriv(nf, m, n, tier):
    nm = '%d points, %d labels, %d ratings' % (nf, m, n)
    bd = 'any %d ratings of %d points (repetitions included), rating probabilities >= 1e-10, %d ratings, %s' % (m, nf, n, BD)

    def setup(S):
        p, s, b = probit(S, n)
        F = S.reals('f', nf, -LIM, LIM)
        ys = [1 + S.choice('y%d' % i, n) for i in range(m)]
        ix = [S.choice('i%d' % i, nf) for i in range(m)]
        y = lab(S, ys, ix)
        l = p.likelihood_each(y, F)
        for i in range(m):
            S.assume(S.ge(l[i], p.eps * 1.01, 0))
        return p, F, y, l

    @case('C09', 'gradient: ' + nm, tier=tier, bounds=bd, weight=m)
    def h(S):
        p, F, y, l = setup(S)
        W, g, py = p.derivatives(y, F)
        t = 0
        for i in range(m):
            t = t + S.fn('log', l[i])
        S.check(S.eq(py, t), 'derivatives() reports the log-likelihood of all labels')
        S.check(S.eq(p.log_likelihood(y, F), t), 'the log-likelihood is the sum over all labels')
        d = S.gradient(lambda x: p.log_likelihood(y, S.array(list(x))), list(F))
        S.check(S.true() if len(g) == nf else S.false(), 'one derivative per point')
        for i in range(nf):
            S.check(S.eq(g[i], d[i]), 'the gradient is the derivative of the log-likelihood')

    @case('C09', 'hessian: ' + nm, tier=tier, bounds=bd, weight=m)
    def g(S):
        p, F, y, l = setup(S)
        W = p.derivatives(y, F)[0]
        S.check(S.true() if W.shape == (nf, nf) else S.false(), 'W has one row and column per point')
        for i in range(nf):
            d = S.gradient(lambda x: p.derivatives(y, S.array(list(x)))[1][i], list(F))
            for j in range(nf):
                S.check(S.eq(W[i, j], -d[j]), 'W is the negative Hessian of the log-likelihood')


deriv(1, 1, 5, 'quick')
deriv(2, 1, 3, 'quick')
deriv(2, 2, 3, 'quick')
deriv(3, 2, 2, 'quick')
deriv(3, 2, 5, 'quick')
deriv(2, 3, 3, 'quick')


@case('C09', 'rating zero is rejected', bounds='any latent value')
def _z(S):
    p, s, b = probit(S, 5)
    F = S.reals('f', 1, -LIM, LIM)
    S.check(S.true() if S.expect_raises(lambda: p.likelihood(lab(S, [0], [0]), F), Exception) else S.false(),
            'a rating of zero is rejected')


def hyper(n):
    @case('C09', 'hyper-parameters %d ratings' % n, bounds='any sigma in [0.5,8] and b in [0.1,5]')
    def h(S):
        p, s, b = probit(S, n)
        g = p.get_hyper()
        S.check(S.eqv(g, S.array([s, b])), 'hyper-parameters given are read back')
        t = S.array([S.real('t0', SLO, SHI), S.real('t1', 0.1, 5.0)])
        p.set_hyper(t)
        S.check(S.eqv(p.get_hyper(), t), 'hyper-parameters set are read back')
        q = S.lop.OrdinalProbit(t[0], t[1], n_ordinals=n)
        F = S.reals('f', 1, -LIM, LIM)
        for r in range(1, n + 1):
            S.check(S.eq(p.likelihood(lab(S, [r], [0]), F), q.likelihood(lab(S, [r], [0]), F)), 'the likelihood uses the current hyper-parameters')


hyper(3)
hyper(5)


def cuts(n, tier='quick'):
    @case('C09', 'given cut points, %d ratings' % n, tier=tier, bounds='any increasing cut points, latent values in [-4,4], sigma in [0.5,8]; '
          'given with or without the infinite ends, and replaced by a spread')
    def h(S):
        p, s, b = probit(S, n)
        t, c = [], S.real('c0', -3, 3)
        for i in range(n - 1):
            t.append(c)
            c = c + S.real('step%d' % i, 0.05, 2)
        ends = S.boolean('ends')
        p.set_b(S.array(([-S.np.inf] if ends else []) + t + ([S.np.inf] if ends else [])))
        F = S.reals('f', 1, -LIM, LIM)
        tot = 0
        for r in range(1, n + 1):
            a = p.likelihood_each(lab(S, [r], [0]), F)[0]
            S.check(S.ge(a, 0), 'a rating probability is not negative')
            tot = tot + a
            if r < n:
                S.check(S.eq(tot, S.fn('ndtr', (t[r - 1] - F[0]) / s)), 'a rating up to r has the probability of its cut point')
        S.check(S.eq(tot, 1), 'the probabilities of all ratings add up to one')
        S.check(S.eq(p.get_hyper()[1], t[-1]), 'the last cut point is read back')
        d = S.real('b2', 0.1, 5.0)
        p.set_b(d)
        q = S.lop.OrdinalProbit(s, d, n_ordinals=n)
        for r in range(1, n + 1):
            S.check(S.eq(p.likelihood(lab(S, [r], [0]), F), q.likelihood(lab(S, [r], [0]), F)), 'a new spread replaces the cut points')
        for k in (n - 2, n, n + 2):
            if k > 1:
                S.check(S.true() if S.expect_raises(lambda: p.set_b(S.np.arange(float(k))), ValueError) else S.false(),
                        'a wrong number of cut points is refused')


cuts(3)
cuts(5)
cuts(2)


def many(nf, m, n, tier='quick'):
    @case('C09', 'many labels: %d points, %d labels, %d ratings' % (nf, m, n), tier=tier, weight=4,
          bounds='fixed ratings and points, rating probabilities >= 1e-10, ' + BD)
    def h(S):
        p, s, b = probit(S, n)
        F = S.reals('f', nf, -LIM, LIM)
        ys, ix = [1 + (3 * i + i // n) % n for i in range(m)], [(2 * i + i // nf) % nf for i in range(m)]
        y = lab(S, ys, ix)
        t = S.const(0)
        l = p.likelihood_each(y, F)
        S.check(S.true() if len(l) == m else S.false(), 'one probability per label')
        for i in range(m):
            S.assume(S.ge(l[i], p.eps * 1.01, 0))
            cut = lambda r: b * (r - 1) / (n - 2)
            hi = S.fn('ndtr', (cut(ys[i]) - F[ix[i]]) / s) if ys[i] < n else S.const(1)
            lo = S.fn('ndtr', (cut(ys[i] - 1) - F[ix[i]]) / s) if ys[i] > 1 else S.const(0)
            S.check(S.eq(l[i], hi - lo), 'each label has the probability of its rating')
            t = t + S.fn('log', l[i])
        W, g, py = p.derivatives(y, F)
        S.check(S.eq(py, t), 'derivatives() reports the log-likelihood of all labels')
        S.check(S.eq(p.log_likelihood(y, F), t), 'the log-likelihood is the sum over all labels')
        d = S.gradient(lambda x: p.log_likelihood(y, S.array(list(x))), list(F))
        S.check(S.true() if len(g) == nf and W.shape == (nf, nf) else S.false(), 'one derivative per point')
        for i in range(nf):
            S.check(S.eq(g[i], d[i]), 'the gradient is the derivative of the log-likelihood')
            e = S.gradient(lambda x: p.derivatives(y, S.array(list(x)))[1][i], list(F))
            for j in range(nf):
                S.check(S.eq(W[i, j], -e[j]), 'W is the negative Hessian of the log-likelihood')


many(6, 11, 5)
