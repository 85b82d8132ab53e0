"""C08: pairwise-preference likelihood is a probability with exact derivatives."""
from engine.api import case

LIM = 4.0      # latent values; sigma >= 0.25 keeps |z| < 30, outside the clipped tails
SLO, SHI = 0.3, 8.0


def probit(S, opt=True):
    s = S.real('sigma', SLO, SHI)
    return S.lop.PreferenceProbit(s, optimize_parameters=opt), s


def pair(S, tag, n):
    """an arbitrary preference between two different points"""
    u = S.choice('u' + tag, n)
    v = S.choice('v' + tag, n - 1)
    v = v if v < u else v + 1
    dk = -1 if S.boolean('dk' + tag) else 1
    return (dk, u, v)


def arr(S, l):
    return S.np.array(l)


@case('C08', 'two outcomes', bounds='all latent values in [-4,4], sigma in [0.3,8]')
def _a(S):
    p, s = probit(S)
    F = S.reals('f', 2, -LIM, LIM)
    a = p.likelihood(arr(S, [(-1, 0, 1)]), F)[0]
    b = p.likelihood(arr(S, [(-1, 1, 0)]), F)[0]
    c = p.likelihood(arr(S, [(1, 0, 1)]), F)[0]
    S.check(S.all([S.gt(a, 0), S.gt(1, a)]), 'a preference probability lies strictly between 0 and 1')
    S.check(S.eq(a + b, 1), 'the two outcomes of a comparison have total probability one')
    S.check(S.eq(b, c), 'reversing the stated preference equals swapping the items')
    S.check(S.implies(S.ge(F[0], F[1], 0), S.ge(a, S.const(1, 2))), 'the better item is preferred at least half of the time')
    S.check(S.eq(a, S.fn('ndtr', (F[0] - F[1]) / (S.np.sqrt(2) * s))), 'the preference probability is the probit of the scaled difference')


@case('C08', 'monotone', bounds='all latent values in [-4,4], sigma in [0.3,8]')
def _m(S):
    p, s = probit(S)
    F, G = S.reals('f', 2, -LIM, LIM), S.reals('g', 2, -LIM, LIM)
    a = p.likelihood(arr(S, [(-1, 0, 1)]), F)[0]
    b = p.likelihood(arr(S, [(-1, 0, 1)]), G)[0]
    S.check(S.implies(S.ge(F[0] - F[1], G[0] - G[1], 0), S.ge(a, b)), 'a larger value difference is more likely to be preferred')


@case('C08', 'extreme values', bounds='all latent values in [-1e6,1e6], sigma in [0.3,8]')
def _x(S):
    p, s = probit(S)
    F = S.reals('f', 2, -1e6, 1e6)
    a = p.likelihood(arr(S, [(-1, 0, 1)]), F)[0]
    S.check(S.all([S.ge(a, 0), S.ge(1, a)]), 'a preference probability stays a probability for extreme values')
    S.check(S.implies(S.ge(F[0], F[1], 0), S.ge(a, S.const(1, 2))), 'the better item is preferred at least half of the time')


@case('C08', 'all pairs', bounds='3 points, all latent values in [-4,4], sigma in [0.3,8]')
def _p(S):
    p, s = probit(S)
    F = S.reals('f', 3, -LIM, LIM)
    M = p.likelihood_all_pairs(F)
    S.check(S.true() if M.shape == (3, 3) else S.false(), 'one probability per ordered pair')
    for i in range(3):
        for j in range(3):
            if i != j:
                S.check(S.eq(M[i, j], p.likelihood(arr(S, [(-1, i, j)]), F)[0]), 'entry (i,j) is the probability that i beats j')
            else:
                S.check(S.eq(M[i, i], S.const(1, 2)), 'an item ties with itself')


def deriv(n, m, tier, part):
    nm = '%s: %d points, %d preferences' % (part, n, m)

    @case('C08', nm, tier=tier, weight=3 if m > 1 else 1,
          bounds='any %d preferences among %d points, latent values in [-4,4], sigma in [0.3,8]' % (m, n))
    def h(S):
        p, s = probit(S)
        F = S.reals('f', n, -LIM, LIM)
        y = arr(S, [pair(S, str(i), n) for i in range(m)])
        x = list(F)

        def at(t):
            return S.array(list(t))
        if part == 'log likelihood':
            t = 0
            L = p.likelihood(y, F)
            for i in range(m):
                t = t + S.fn('log', L[i])
            S.check(S.eq(p.log_likelihood(y, F), t), 'the log-likelihood is the sum of log probabilities')
            W, g, py = p.derivatives(y, F)
            S.check(S.eq(py, t), 'derivatives() reports the log-likelihood')
            S.check(S.all([S.eqv(W, p.calc_W(y, F)), S.eqv(g, p.derv_log_likelyhood(y, F))]),
                    'derivatives() reports the gradient and Hessian')
        elif part == 'gradient':
            g = p.derv_log_likelyhood(y, F)
            d = S.gradient(lambda t: p.log_likelihood(y, at(t)), x)
            S.check(S.true() if len(g) == n else S.false(), 'one derivative per point')
            for i in range(n):
                S.check(S.eq(g[i], d[i]), 'the gradient is the derivative of the log-likelihood')
        elif part == 'hessian':
            W = p.calc_W(y, F)
            S.check(S.true() if W.shape == (n, n) else S.false(), 'W has one row and column per point')
            for i in range(n):
                d = S.gradient(lambda t: p.derv_log_likelyhood(y, at(t))[i], x)
                for j in range(n):
                    S.check(S.eq(W[i, j], -d[j]), 'W is the negative Hessian of the log-likelihood')
        elif part == 'W by F':
            D = p.calc_W_dF(y, F)
            S.check(S.true() if D.shape == (n, n, n) else S.false(), 'dW/dF has one matrix per point')
            for i in range(n):
                for j in range(n):
                    d = S.gradient(lambda t: p.calc_W(y, at(t))[i, j], x)
                    for k in range(n):
                        S.check(S.eq(D[k, i, j], d[k]), 'dW/dF is the derivative of W')
        else:
            def on(fn):
                def f(t):
                    p.set_hyper([t[0]])
                    return fn()
                return f
            if part == 'hyper gradient':
                d = S.gradient(on(lambda: p.log_likelihood(y, F)), [s])
                p.set_hyper([s])
                g = p.grad_hyper(y, F)
                S.check(S.true() if len(g) == 1 else S.false(), 'one derivative per hyper-parameter')
                S.check(S.eq(g[0], d[0]), 'the hyper-parameter gradient is the derivative of the log-likelihood')
            else:
                D = p.calc_W_dHyper(y, F)
                S.check(S.true() if D.shape == (1, n, n) else S.false(), 'one matrix per hyper-parameter')
                for i in range(n):
                    for j in range(n):
                        d = S.gradient(on(lambda: p.calc_W(y, F)[i, j]), [s])
                        p.set_hyper([s])
                        S.check(S.eq(D[0, i, j], d[0]), 'dW/dsigma is the derivative of W')


for _p_ in ('log likelihood', 'gradient', 'hessian', 'W by F', 'hyper gradient', 'W by hyper'):
    deriv(2, 1, 'quick', _p_)
    deriv(3, 2, 'quick', _p_)
    deriv(2, 3, 'thorough', _p_)
    deriv(3, 3, 'thorough', _p_)


@case('C08', 'hyper-parameters', bounds='sigma in [0.3,8], with and without optimisation')
def _h(S):
    opt = S.boolean('opt')
    p, s = probit(S, opt)
    F = S.reals('f', 2, -LIM, LIM)
    y = arr(S, [(-1, 0, 1)])
    n = len(p.get_hyper())
    S.check(S.true() if n == (1 if opt else 0) else S.false(), 'sigma is a hyper-parameter only when it is optimised')
    if opt:
        t = S.real('t', SLO, SHI)
        S.check(S.eq(p.get_hyper()[0], s, 0), 'the hyper-parameter given is read back')
        p.set_hyper([t])
        S.check(S.eq(p.get_hyper()[0], t, 0), 'the hyper-parameter set is read back')
        q = S.lop.PreferenceProbit(t)
        S.check(S.eq(p.likelihood(y, F)[0], q.likelihood(y, F)[0]), 'the likelihood uses the current sigma')
        S.check(S.eqv(p.calc_W(y, F), q.calc_W(y, F)), 'the Hessian uses the current sigma')
        d = S.gradient(lambda a: (p.set_hyper([a[0]]), p.param_likli())[1], [t])
        S.check(S.eq(p.grad_param_likli()[0], d[0]), 'the prior gradient is the derivative of the log prior')
    else:
        S.check(S.true() if len(p.grad_hyper(y, F)) == 0 else S.false(), 'no derivative for a fixed sigma')
        p.set_hyper([])
        S.check(S.eq(p.sigma, s, 0), 'a fixed sigma stays')


def many(n, prefs, part):
    @case('C08', 'many preferences, %s: %d points, %d preferences' % (part, n, len(prefs)), weight=4,
          bounds='fixed preferences, increasing latent values in [-4,4], sigma = 1')
    def h(S):
        s = S.const(1)
        p = S.lop.PreferenceProbit(s)
        F = S.reals('f', n, -LIM, LIM)
        for i in range(n - 1):
            S.assume(S.gt(F[i + 1], F[i], 0))
        y = arr(S, prefs)
        r = S.np.sqrt(2) * s

        def ll(t):
            u = S.const(0)
            for d, i, j in prefs:
                u = u + S.fn('log', S.fn('ndtr', d * (t[j] - t[i]) / r))
            return u
        if part == 'log likelihood':
            S.check(S.eq(p.log_likelihood(y, F), ll(list(F))), 'the log-likelihood is the sum of log probabilities')
            S.check(S.eq(p.derivatives(y, F)[2], ll(list(F))), 'derivatives() reports the log-likelihood')
            M = p.likelihood_all_pairs(F)
            S.check(S.true() if M.shape == (n, n) else S.false(), 'one probability per ordered pair')
            for i in range(n):
                for j in range(n):
                    S.check(S.eq(M[i, j], S.fn('ndtr', (F[i] - F[j]) / r) if i != j else S.const(1, 2)),
                            'entry (i,j) is the probability that i beats j')
        elif part == 'gradient':
            d = S.gradient(ll, list(F))
            for g in (p.derv_log_likelyhood(y, F), p.derivatives(y, F)[1]):
                S.check(S.true() if len(g) == n else S.false(), 'one derivative per point')
                for i in range(n):
                    S.check(S.eq(g[i], d[i]), 'the gradient is the derivative of the log-likelihood')
        else:
            W = p.derivatives(y, F)[0]
            S.check(S.true() if W.shape == (n, n) else S.false(), 'W has one row and column per point')
            for i in range(n):
                d = S.gradient(lambda t: p.derv_log_likelyhood(y, S.array(list(t)))[i], list(F))
                for j in range(n):
                    S.check(S.eq(W[i, j], -d[j]), 'W is the negative Hessian of the log-likelihood')


LONG = [(-1 if i % 3 else 1, i % 9, (i % 9 + 1 + i // 9) % 9) for i in range(24)] + [(-1, 0, 1), (1, 8, 2)]
for _p_ in ('log likelihood', 'gradient', 'hessian'):
    many(9, LONG, _p_)
