"""C10: absolute-score likelihood is a beta model with exact derivatives."""
from engine.api import case

LIM, SLO, SHI = 3.0, 0.7, 8.0
BD = 'latent values in [-3,3], slope sigma in [0.7,8], precision v in [2,100], scores in [0.01,0.99]'


def probit(S, **kw):
    s, v = S.real('sigma', SLO, SHI), S.real('v', 2.0, 100.0)
    return S.lop.AbsBoundProbit(s, v, **kw), s, v


def mean(S, f, s):
    return S.fn('ndtr', f / (s * S.np.sqrt(2.0)))


def inner(S, F, s, p):
    """keep the expected score inside the open interval where it is not clipped"""
    for i in range(len(F)):
        m = mean(S, F[i], s)
        S.assume(S.all([S.gt(m, p.eps, 0), S.gt(1 - p.eps, m, 0)]))


def labels(S, m, nf):
    ys = S.reals('y', m, 0.01, 0.99)
    ix = [S.choice('i%d' % i, nf) for i in range(m)]
    return (ys, S.np.array(ix)), ix


def logbeta(S, y, mu, v):
    a, b = mu * v, (1 - mu) * v
    return ((a - 1) * S.fn('log', y) + (b - 1) * S.fn('log', 1 - y)
            + S.fn('lgamma', v) - S.fn('lgamma', a) - S.fn('lgamma', b))


@case('C10', 'expected score', bounds='two latent values in [-1e6,1e6], any sigma, v')
def _e(S):
    p, s, v = probit(S)
    F = S.reals('f', 2, -1e6, 1e6)
    m = p.mean_link(F)
    for i in range(2):
        S.check(S.all([S.gt(m[i], 0), S.gt(1, m[i])]), 'the expected score lies strictly between 0 and 1')
    S.check(S.implies(S.ge(F[0], F[1], 0), S.ge(m[0], m[1])), 'the expected score does not decrease with the latent value')
    a, b = p.get_alpha_beta(F)
    for i in range(2):
        S.check(S.all([S.gt(a[i], 0), S.gt(b[i], 0)]), 'both beta parameters are positive')
        S.check(S.eq(a[i] + b[i], v), 'the beta parameters add up to the precision')
        S.check(S.eq(a[i], m[i] * v), 'the beta mean is the expected score')


@case('C10', 'mean is the probit', bounds=BD)
def _m(S):
    p, s, v = probit(S)
    F = S.reals('f', 1, -LIM, LIM)
    inner(S, F, s, p)
    S.check(S.eq(p.mean_link(F)[0], mean(S, F[0], s)), 'the expected score is the probit of the scaled latent value')


def lik(nf, m, tier):
    nm = '%d points, %d scores' % (nf, m)
    bd = 'any %d scores of %d points (repetitions included), %s' % (m, nf, BD)

    def setup(S, **kw):
        p, s, v = probit(S, **kw)
        F = S.reals('f', nf, -LIM, LIM)
        inner(S, F, s, p)
        y, ix = labels(S, m, nf)
        return p, s, v, F, y, ix

    @case('C10', 'likelihood: ' + nm, tier=tier, bounds=bd)
    def h(S):
        p, s, v, F, y, ix = setup(S)
        t = 0
        for i in range(m):
            t = t + logbeta(S, y[0][i], mean(S, F[ix[i]], s), v)
        S.check(S.eq(p.log_likelihood(y, F), t), 'the log-likelihood is the sum of log beta densities of all scores')
        S.check(S.eq(p.derivatives(y, F)[2], t), 'derivatives() reports the log-likelihood')
        S.check(S.eq(p.likelihood(y, F), S.fn('exp', t)), 'the likelihood is the exponential of the log-likelihood')

    @case('C10', 'gradient: ' + nm, tier=tier, bounds=bd)
    def g(S):
        p, s, v, F, y, ix = setup(S)
        gr = p.derivatives(y, F)[1]
        d = S.gradient(lambda x: p.derivatives(y, S.array(list(x)))[2], list(F))
        S.check(S.true() if len(gr) == nf else S.false(), 'one derivative per point')
        for i in range(nf):
            S.check(S.eq(gr[i], d[i]), 'the gradient is the derivative of the log-likelihood')

    @case('C10', 'hessian: ' + nm, tier=tier, bounds=bd)
    def w(S):
        p, s, v, F, y, ix = setup(S)
        W = p.derivatives(y, F)[0]
        S.check(S.true() if W.shape == (nf, nf) else S.false(), 'W has one row and column per point')
        for i in range(nf):
            d = S.gradient(lambda x: p.derivatives(y, S.array(list(x)))[1][i], list(F))
            for j in range(nf):
                S.check(S.eq(W[i, j], -d[j]), 'W is the negative Hessian of the log-likelihood')

    @case('C10', 'W by F: ' + nm, tier=tier, bounds=bd)
    def wf(S):
        p, s, v, F, y, ix = setup(S)
        D = p.calc_W_dF(y, F)
        S.check(S.true() if D.shape == (nf, nf, nf) else S.false(), 'dW/dF has one matrix per point')
        for i in range(nf):
            for j in range(nf):
                d = S.gradient(lambda x: p.derivatives(y, S.array(list(x)))[0][i, j], list(F))
                for k in range(nf):
                    S.check(S.eq(D[k, i, j], d[k]), 'dW/dF is the derivative of W')

    @case('C10', 'hyper gradient: ' + nm, tier=tier, bounds=bd)
    def hg(S):
        only = S.boolean('v only')
        p, s, v, F, y, ix = setup(S, optimize_v_only=only)
        gr = p.grad_hyper(y, F)
        th = [v] if only else [s, v]

        def at(t):
            p.set_hyper(list(t))
            return p.derivatives(y, F)[2]
        d = S.gradient(at, th)
        S.check(S.true() if len(gr) == len(th) else S.false(), 'one derivative per hyper-parameter')
        for i in range(len(th)):
            S.check(S.eq(gr[i], d[i]), 'the hyper-parameter gradient is the derivative of the log-likelihood')

    @case('C10', 'W by hyper: ' + nm, tier=tier, bounds=bd)
    def wh(S):
        only = S.boolean('v only')
        p, s, v, F, y, ix = setup(S, optimize_v_only=only)
        D = p.calc_W_dHyper(y, F)
        th = [v] if only else [s, v]
        S.check(S.true() if D.shape == (len(th), nf, nf) else S.false(), 'one matrix per hyper-parameter')
        for i in range(nf):
            for j in range(nf):
                def at(t):
                    p.set_hyper(list(t))
                    return p.derivatives(y, F)[0][i, j]
                d = S.gradient(at, th)
                for k in range(len(th)):
                    S.check(S.eq(D[k, i, j], d[k]), 'the derivative of W by hyper-parameter %s is exact' % ('v' if only or k else 'sigma'))


lik(1, 1, 'quick')
lik(2, 1, 'quick')
lik(2, 2, 'quick')
lik(3, 2, 'thorough')
lik(2, 3, 'thorough')


@case('C10', 'hyper-parameters', bounds=BD)
def _h(S):
    mode = S.choice('mode', 3)
    p, s, v = probit(S, optimize_parameters=mode > 0, optimize_v_only=mode == 1)
    want = [[], [v], [s, v]][mode]
    S.check(S.true() if len(p.get_hyper()) == len(want) else S.false(), 'the optimised hyper-parameters are reported')
    S.check(S.eqv(p.get_hyper(), S.array(want)) if want else S.true(), 'hyper-parameters given are read back')
    t = S.reals('t', len(want), 0.7, 50.0) if want else S.array([])
    p.set_hyper(t)
    if want:
        S.check(S.eqv(p.get_hyper(), t), 'hyper-parameters set are read back')
    F = S.reals('f', 1, -LIM, LIM)
    y = (S.reals('y', 1, 0.01, 0.99), S.np.array([0]))
    q = S.lop.AbsBoundProbit(t[0] if mode == 2 else s, t[-1] if mode else v)
    S.check(S.eq(p.log_likelihood(y, F), q.log_likelihood(y, F)), 'the likelihood uses the current hyper-parameters')
    if mode:
        def at(x):
            p.set_hyper(list(x))
            return p.param_likli()
        d = S.gradient(at, list(t))
        S.check(S.eqv(p.grad_param_likli(), S.array(d)), 'the prior gradient is the derivative of the log prior')
    else:
        S.check(S.true() if len(p.grad_hyper(y, F)) == 0 else S.false(), 'no derivative for fixed hyper-parameters')


@case('C10', 'expected score far from the middle', bounds='latent values in [-5,5] with expected scores in [1e-7,1-1e-7], sigma in [0.7,8], v in [2,100]')
def _far(S):
    p, s, v = probit(S)
    F = S.reals('f', 1, -5.0, 5.0)
    e = mean(S, F[0], s)
    S.assume(S.all([S.gt(e, 1e-7, 0), S.gt(1 - 1e-7, e, 0)]))
    S.check(S.eq(p.mean_link(F)[0], e), 'the expected score is the probit of the scaled latent value')


def many(nf, m):
    @case('C10', 'many scores: %d points, %d scores' % (nf, m), weight=4, bounds='fixed points, ' + BD)
    def h(S):
        p, s, v = probit(S)
        F = S.reals('f', nf, -LIM, LIM)
        inner(S, F, s, p)
        ix = [(2 * i + i // nf) % nf for i in range(m)]
        y = (S.reals('y', m, 0.01, 0.99), S.np.array(ix))

        def ll(t):
            u = S.const(0)
            for i in range(m):
                u = u + logbeta(S, y[0][i], mean(S, t[ix[i]], s), v)
            return u
        W, g, py = p.derivatives(y, F)
        S.check(S.eq(py, ll(list(F))), 'derivatives() reports the log-likelihood')
        S.check(S.eq(p.log_likelihood(y, F), ll(list(F))), 'the log-likelihood is the sum of log beta densities of all scores')
        d = S.gradient(ll, list(F))
        S.check(S.true() if len(g) == nf and W.shape == (nf, nf) else S.false(), 'one derivative per point')
        for i in range(nf):
            S.check(S.eq(g[i], d[i]), 'the gradient is the derivative of the log-likelihood')
            e = S.gradient(lambda x: p.derivatives(y, S.array(list(x)))[1][i], list(F))
            for j in range(nf):
                S.check(S.eq(W[i, j], -e[j]), 'W is the negative Hessian of the log-likelihood')


many(5, 9)
