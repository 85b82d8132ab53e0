"""C18: prior densities on hyper-parameters are consistent with their logs."""
from engine.api import case


def g(S):
    return S.lop.utilities.gamma_dist


def mk(n):
    @case('C18', 'gamma density, %d arguments' % n, bounds='any x in [1e-6,50], shape and scale in [0.2,8]')
    def h(S):
        x = S.reals('x', n, 1e-6, 50.0)
        k, th = S.real('k', 0.2, 8.0), S.real('theta', 0.2, 8.0)
        p, lp, d = g(S).pdf_gamma(x, k, th), g(S).log_pdf_gamma(x, k, th), g(S).d_log_pdf_gamma(x, k, th)
        for i in range(n):
            ref = (k - 1) * S.fn('log', x[i]) - x[i] / th - k * S.fn('log', th) - S.fn('lgamma', k)
            S.check(S.eq(lp[i], ref), 'the log density is that of the gamma distribution')
            S.check(S.eq(p[i], S.fn('exp', ref)), 'the density is the exponential of the log density')
            S.check(S.eq(d[i], (k - 1) / x[i] - 1 / th), 'the derivative is that of the log density')
            S.check(S.gt(p[i], 0), 'the density is positive')


mk(1)
mk(2)


@case('C18', 'derivative', bounds='any x in [0.01,50], shape and scale in [0.2,8]')
def _d(S):
    x, k, th = S.real('x', 0.01, 50.0), S.real('k', 0.2, 8.0), S.real('theta', 0.2, 8.0)
    gr = S.gradient(lambda v: g(S).log_pdf_gamma(v[0], k, th), [x])
    S.check(S.eq(g(S).d_log_pdf_gamma(x, k, th), gr[0], 1e-4), 'the reported derivative is the true derivative')


@case('C18', 'fixed shapes', bounds='any x in [1e-6,50], scale in [0.2,8], shape 1, 2 or 3')
def _f(S):
    x, th = S.real('x', 1e-6, 50.0), S.real('theta', 0.2, 8.0)
    k = S.choice('k', 3) + 1
    e = S.fn('exp', -x / th)
    ref = [e / th, x * e / th ** 2, x * x * e / (2 * th ** 3)][k - 1]
    S.check(S.eq(g(S).pdf_gamma(x, k, th), ref), 'the density is that of the gamma distribution')
    L = S.fn('log', x)
    T = S.fn('log', th)
    lref = [-x / th - T, L - x / th - 2 * T, 2 * L - x / th - 3 * T - S.fn('log', S.const(2))][k - 1]
    S.check(S.eq(g(S).log_pdf_gamma(x, k, th), lref), 'the log density is that of the gamma distribution')


@case('C18', 'outside the support', bounds='any x < 0, shape and scale in [0.2,8]')
def _n(S):
    x, k, th = S.real('x', -50.0, 0.0, True), S.real('k', 0.2, 8.0), S.real('theta', 0.2, 8.0)
    S.assume(x < 0)
    S.check(S.eq(g(S).log_pdf_gamma(x, k, th), -S.np.inf), 'negative arguments are impossible')


@case('C18', 'mixed batch', bounds='one negative and one positive argument')
def _m(S):
    x = S.reals('x', 2, -50, 50)
    S.assume(x[0] < 0)
    S.assume(S.ge(x[1], 0.01))
    k, th = S.real('k', 0.2, 8.0), S.real('theta', 0.2, 8.0)
    lp = g(S).log_pdf_gamma(x, k, th)
    S.check(S.eq(lp[0], -S.np.inf), 'negative arguments are impossible')
    S.check(S.eq(lp[1], g(S).log_pdf_gamma(x[1], k, th)), 'a batch gives the values of its members')
