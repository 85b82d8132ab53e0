"""C25: joint comparison probabilities reduce to products when independent."""
from engine.api import case


def cdf(S):
    return S.lop.utilities.probability_utility.calc_cdf


def product(S, mu, var):
    p = S.const(1)
    for m, v in zip(mu, var):
        p = p * S.fn('ndtr', -m / S.fn('sqrt', v))
    return p


def diag(S, var):
    n = len(var)
    return S.array([[var[i] if i == j else S.const(0) for j in range(n)] for i in range(n)])


def hook(S, log):
    """the external multivariate normal routine: P(X <= b) for X ~ N(0, cov)"""
    def h(name, *a, **k):
        log.append((name, a, k))
        if name != 'mvn_cdf':
            raise AssertionError(name)
        b, C = a[0], a[1]
        p = S.const(1)
        n = len(b)
        for i in range(n):
            for j in range(n):
                if i != j:
                    S.check(S.eq(C[i, j], 0), 'the covariance reaches the routine unchanged')
            p = p * S.fn('ndtr', b[i] / S.fn('sqrt', C[i, i]))
        return p
    return h


def mk(n, method, tier='quick'):
    @case('C25', '%s, %d independent values' % (method, n), tier=tier, branch_timeout=1.0,
          bounds='any %d means in +-8 and variances in [0.05,9]' % n)
    def h(S):
        mu = S.reals('mu', n, -8, 8)
        var = S.reals('var', n, 0.05, 9.0)
        log = []
        S.approxcdf = hook(S, log)
        mu0, C = S.array(list(mu)), diag(S, var)
        C0 = diag(S, var)
        p = cdf(S)(mu, C, method=method)
        S.check(S.eq(p, product(S, mu0, var)), 'the product of the individual probabilities')
        S.check(S.ge(p, 0), 'a probability')
        S.check(S.le(p, 1), 'a probability')
        S.check(S.all([S.eqv(mu, mu0), S.eqv(C, C0)]), 'the inputs are not modified')


for _n in (1, 2, 3):
    for _m in ('independent', 'switch', 'mvn', 'auto'):
        mk(_n, _m)
for _m in ('independent', 'switch'):
    mk(4, _m)
    mk(6, _m, 'thorough')


@case('C25', 'full, one value', bounds='any mean in +-8 and variance in [0.05,9]')
def _f(S):
    mu, var = S.reals('mu', 1, -8, 8), S.reals('var', 1, 0.05, 9.0)
    S.check(S.eq(cdf(S)(mu, diag(S, var), method='full'), product(S, mu, var)), 'the individual probability')


@case('C25', 'independent method ignores correlations', bounds='any 3 means and positive definite-diagonal covariances')
def _i(S):
    mu, var = S.reals('mu', 3, -8, 8), S.reals('var', 3, 0.05, 9.0)
    c = S.reals('c', 3, -2, 2)
    C = S.array([[var[0], c[0], c[1]], [c[0], var[1], c[2]], [c[1], c[2], var[2]]])
    S.check(S.eq(cdf(S)(mu, C, method='independent'), product(S, mu, var)),
            'the product of the individual probabilities')


def pair(n, i, j, tier='quick'):
    @case('C25', 'switch, %d values, %d and %d correlated' % (n, i, j), tier=tier, branch_timeout=1.0, validate=0 or 4,
          bounds='any means in +-4, variances in [0.2,4], correlation of one pair between 0.1 and 0.9 in size')
    def h(S):
        mu = S.reals('mu', n, -4, 4)
        var = S.reals('var', n, 0.2, 4.0)
        r = S.real('cov', -3.0, 3.0)
        S.assume(S.ge(0.81 * var[i] * var[j], r * r))
        S.assume(S.any([S.ge(r, 0.01), S.ge(-0.01, r)]))
        C = diag(S, var)
        C[i, j] = r
        C[j, i] = r
        rest = [k for k in range(n) if k not in (i, j)]
        p = cdf(S)(mu, C, method='switch')
        C2 = S.array([[var[i], r], [r, var[j]]])
        p2 = cdf(S)(S.array([mu[i], mu[j]]), C2, method='full')
        S.check(S.any([S.eq(p, p2 * product(S, [mu[k] for k in rest], [var[k] for k in rest]), 1e-5),
                       S.eq(p, swapped(S, mu, C2, i, j) * product(S, [mu[k] for k in rest], [var[k] for k in rest]), 1e-5)]),
                'the joint probability of the correlated pair times the rest')


def swapped(S, mu, C2, i, j):
    return cdf(S)(S.array([mu[j], mu[i]]), S.array([[C2[1, 1], C2[0, 1]], [C2[0, 1], C2[0, 0]]]), method='full')


pair(2, 0, 1)
pair(3, 0, 1)
pair(3, 0, 2)
pair(3, 1, 2)
pair(4, 1, 3, 'thorough')


@case('C25', 'switch, 4 values in two correlated pairs', branch_timeout=1.0,
      bounds='any means in +-4, variances in [0.2,4], two pairs with correlations between 0.1 and 0.9 in size')
def _two(S):
    mu = S.reals('mu', 4, -4, 4)
    var = S.reals('var', 4, 0.2, 4.0)
    C = diag(S, var)
    prs = [((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2))][S.choice('pairing', 3)]
    for i, j in prs:
        r = S.real('cov', 0.01, 3.0)
        S.assume(S.ge(0.81 * var[i] * var[j], r * r))
        if S.boolean('negative'):
            r = -r
        C[i, j] = r
        C[j, i] = r
    p = cdf(S)(mu, C, method='switch')
    # the routine for a pair treats its two values alike
    alts = [(S.const(1))]
    for i, j in prs:
        C2 = S.array([[var[i], C[i, j]], [C[i, j], var[j]]])
        a = cdf(S)(S.array([mu[i], mu[j]]), C2, method='full')
        b = swapped(S, mu, C2, i, j)
        alts = [x * y for x in alts for y in (a, b)]
    S.check(S.any([S.eq(p, a, 1e-5) for a in alts]), 'the product of the joint probabilities of the pairs')
