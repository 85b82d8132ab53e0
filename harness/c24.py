"""C24: test reward functions reward more of everything and agree on batches.

Weights and constants are whatever the functions draw themselves, for every
value of the draws."""
from engine.api import case


NAMES = ['FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax']


def mk(name, d, tier='quick', batch=2):
    opts = dict(tier=tier, bounds='dimension %d, points in [0,1]^d, any drawn weights (each draw >= 0.01)' % d,
                ctx={'u_low': 0.01}, weight=d, branch_timeout=1.5)

    def val(f, x):
        v = f(x)
        return v[0] if getattr(v, 'ndim', 0) else v

    @case('C24', '%s dimension %d: more is not worse' % (name, d), **opts)
    def h(S):
        f = getattr(S.lop, name)(d)
        a = S.reals('a', (1, d), 0, 1)
        b = S.reals('b', (1, d), 0, 1)
        for i in range(d):
            S.assume(S.ge(a[0, i], b[0, i], 0))
        ya, yb = f(a), f(b)
        S.observe('y', [ya, yb])
        S.check(S.ge(ya.ravel()[0], yb.ravel()[0]), 'a point at least as good in every objective is not valued less')

    @case('C24', '%s dimension %d: batches' % (name, d), **opts)
    def h(S):
        f = getattr(S.lop, name)(d)
        a = S.reals('a', (batch, d), 0, 1)
        y = f(a)
        S.check(S.true() if y.size == batch else S.false(), 'one value per point')
        y = y.ravel()
        for i in range(batch):
            one = f(a[i:i + 1])
            S.check(S.eq(y[i], one.ravel()[0]), 'a batch gives each point the value it has alone')
            if d > 1:
                S.check(S.eq(y[i], val(f, a[i])), 'a single point gives the value it has in a batch')
            else:
                S.check(S.eq(y[i], S.np.ravel(f(a[i]))[0]), 'a single point gives the value it has in a batch')
        if d == 1:
            l = f([a[i, 0] for i in range(batch)])
            S.check(S.true() if S.np.size(l) == batch else S.false(), 'a list gives one value per point')
            if S.np.size(l) == batch:
                for i in range(batch):
                    S.check(S.eq(S.np.ravel(l)[i], y[i]), 'a list gives the values of its points')


for _n in NAMES:
    mk(_n, 1)
    mk(_n, 2)
    mk(_n, 3, 'quick' if _n not in ('FakeSquaredMinMax', 'FakeWeightedMax', 'FakeWeightedMin') else 'thorough')


def large(name, k, d=2, tier='quick'):
    @case('C24', '%s dimension %d: a batch of %d' % (name, d, k), bounds='dimension %d, %d points in [0,1]^%d, any drawn weights (each draw >= 0.01)' % (d, k, d),
          ctx={'u_low': 0.01}, branch_timeout=1.5, tier=tier, weight=k)
    def h(S):
        f = getattr(S.lop, name)(*([d, S.real('alpha', 0, 1)] if name == 'FakeMinLog' else [d] if name != 'FakeStaticSin' else []))
        a = S.reals('a', (k, d), 0, 1) if d > 1 else S.reals('a', k, 0, 1)
        if name in ('FakeSquaredMinMax', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeMinLog'):
            # which objective is the extreme one is the same for all points
            if d > 1 and hasattr(f, 'w'):
                for i in range(k):
                    S.assume(S.ge(a[i, 0] * f.w[0], a[i, 1] * f.w[1], 0))
        y = f(a)
        S.check(S.true() if S.np.size(y) == k else S.false(), 'one value per point')
        for i in range(k):
            S.check(S.eq(S.np.ravel(y)[i], S.np.ravel(f(a[i:i + 1]))[0]), 'a batch gives each point the value it has alone')


for _n in NAMES + ['FakeMinLog', 'FakeSinExp']:
    large(_n, 5)
for _n in NAMES[:3] + ['FakeSinExp', 'FakeStaticSin']:
    large(_n, 9, 1)


def ref(name):
    @case('C24', '%s value' % name, bounds='dimension 2, points in [0,1]^2, any drawn weights (each draw >= 0.01)',
          ctx={'u_low': 0.01}, branch_timeout=1.5)
    def h(S):
        f = getattr(S.lop, name)(2)
        u = [v for k, v in S.draws if k == 'u']
        x = S.reals('x', (1, 2), 0, 1)
        y = f(x)[0]
        w = u[-2:] if name != 'FakeLogistic' else None
        mx = lambda a, b: S.ite(S.ge(a, b, 0), a, b)
        mn = lambda a, b: S.ite(S.ge(a, b, 0), b, a)
        X = x[0]
        if name in ('FakeLinear', 'FakeSquared'):
            t = w[0] + w[1]
            v = (w[0] * X[0] + w[1] * X[1]) / t if name == 'FakeLinear' else (w[0] * X[0] ** 2 + w[1] * X[1] ** 2) / t
            S.check(S.eq(y, v), 'the weighted sum of the objectives, weights adding up to one')
        elif name in ('FakeWeightedMax', 'FakeWeightedMin'):
            m = mx(w[0], w[1])
            g = mx if name == 'FakeWeightedMax' else mn
            S.check(S.eq(y * m, g(w[0] * X[0], w[1] * X[1])), 'the extreme of the weighted objectives, largest weight one')


for _n in ('FakeLinear', 'FakeSquared', 'FakeWeightedMax', 'FakeWeightedMin'):
    ref(_n)


@case('C24', 'minimum and logistic mixture', bounds='dimension 2, any mixing weight in [0,1], points in [0,1]^2',
      ctx={'u_low': 0.01}, branch_timeout=1.5)
def _m(S):
    al = S.real('alpha', 0, 1)
    f = S.lop.FakeMinLog(2, al)
    a = S.reals('a', (2, 2), 0, 1)
    y = f(a)
    for i in range(2):
        S.check(S.eq(y[i], f(a[i:i + 1])[0]), 'a batch gives each point the value it has alone')
        S.check(S.eq(y[i], al * f.min(a[i:i + 1])[0] + (1 - al) * f.logistic(a[i:i + 1])[0]),
                'the mixture of its two parts')
    S.assume(S.all([S.ge(a[0, 0], a[1, 0], 0), S.ge(a[0, 1], a[1, 1], 0)]))
    p, q = f.min(a), f.logistic(a)
    S.check(S.ge(al * (p[0] - p[1]), 0), 'a point at least as good in every objective is not valued less')
    S.check(S.ge((1 - al) * (q[0] - q[1]), 0), 'a point at least as good in every objective is not valued less')


def other(name, d, **kw):
    @case('C24', '%s dimension %d: batches' % (name, d), bounds='points in [0,1]^%d, any drawn constants' % d,
          ctx={'u_low': 0.01, 'exponential_low': 0.01}, branch_timeout=1.5, **kw)
    def h(S):
        f = getattr(S.lop, name)(*([d] if name != 'FakeStaticSin' else []))
        if name == 'FakeMixtureGaussian':
            S.assume(S.true() if f.num_kerns <= 3 else S.false())
        a = S.reals('a', (2, d) if d > 1 else 2, 0, 1)
        y = f(a)
        S.check(S.true() if y.shape == (2,) else S.false(), 'one value per point')
        for i in range(2):
            S.check(S.eq(y[i], S.np.ravel(f(a[i:i + 1]))[0]), 'a batch gives each point the value it has alone')
            one = f(a[i])
            S.check(S.true() if S.np.size(one) == 1 else S.false(), 'a single point gives a single value')
            S.check(S.eq(y[i], S.np.ravel(one)[0]), 'a single point gives the value it has in a batch')


other('FakeSinExp', 1)
other('FakeSinExp', 2)
other('FakeStaticSin', 1)
other('FakeMixtureGaussian', 2)
