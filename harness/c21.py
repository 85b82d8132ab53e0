"""C21: mixed learners ask for the kind of query their policy prescribes."""
from engine.api import case

N = 3
RATE, PAIR = [1], [2, 0]


class Inner:
    """an inner learner with arbitrary scores; remembers how it was used"""

    def __init__(self, S, name, answer):
        self.S, self.name, self.answer = S, name, answer
        self.model = None
        self.samples = None
        self.sel_metric = None
        self.score = None
        self.calls = []
        self.M = 3
        self.drawn = 0
        self.asked = []

    def set_model(self, model):
        self.model = model

    def set_samples(self, all_rep, all_Q):
        self.samples = (all_rep, all_Q)

    def unset_samples(self):
        self.samples = None

    def get_representative_Q(self, candidate_pts=None):
        return ('rep', self.drawn), ('Q', self.drawn)

    def get_samples_from_model(self, candidate_pts, x_rep, indicies=None):
        if self.samples is not None:
            return self.samples
        self.drawn += 1
        T = TOKEN[0]
        Q = self.S.array([[self.S.const(T * 100 + 10 * k + i) for i in range(N)] for k in range(2)])
        return ('samples', T), Q

    def _done(self, what):
        self.calls.append((what, self.samples))
        S = self.S
        if self.samples is not None:
            S.check(S.true() if self.samples[0] == ('samples', TOKEN[0]) else S.false(),
                    'no query is scored with reward samples of an earlier query')
        if self.score is not None:
            self.sel_metric = self.score

    def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
        S = self.S
        ok = getattr(candidate_pts, 'shape', None) == (N, 2) and isinstance(num_alts, int)
        S.check(S.true() if ok else S.false(), 'inner learners get the candidates and the number of points')
        if not ok:
            S.cut()
        self._done('select')
        self.asked.append((num_alts, list(prev_selection), prefer_pts, return_not_selected))
        return (list(self.answer), [0]) if return_not_selected else list(self.answer)

    def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
        self._done('greedy')
        ind = list(indicies)
        S = self.S
        S.check(S.true() if ind == RATE else S.false(), 'the rating query that would be asked is the one that is scored')
        return ind[0]


TOKEN = [0]


class Model:
    X_train = None

    def predict(self, X):
        return None, None


def points(S, same=False):
    return S.array([[S.const(0), S.const(i if not same else 0)] for i in range(N)])


class Kit:
    def __init__(self, S, make, comp=False):
        TOKEN[0] = 0
        self.S = S
        self.pair, self.abs = Inner(S, 'pair', PAIR), Inner(S, 'abs', RATE)
        self.comp = Inner(S, 'comp', RATE) if comp else None
        A = S.lop.active_learning
        self.l = make(A, self.pair, self.abs, self.comp)
        self.model = Model()
        self.l.set_model(self.model)
        S.check(S.true() if all(x is None or x.model is self.model for x in (self.pair, self.abs, self.comp)) else S.false(),
                'every inner learner gets the model')
        self.n = 0

    def ask(self, nots=False, k=2, prev=(), pref=None, X=None):
        """one query -> True (comparison), False (rating)"""
        S = self.S
        TOKEN[0] += 1
        p0, a0 = len(self.pair.asked), len(self.abs.asked)
        c0 = len(self.comp.asked) if self.comp else 0
        r = self.l.select(X if X is not None else points(S), k, list(prev), pref, nots)
        if isinstance(r, tuple) and len(r) == 3:
            self.scores, r = r[1:], r[0]
        if nots:
            S.check(S.true() if isinstance(r, tuple) and len(r) == 2 and r[1] == [0] else S.false(), 'points passed over are reported')
            r = r[0]
        r = [int(i) for i in r]
        S.check(S.true() if r in (RATE, PAIR) else S.false(), 'the query is the one of the inner learner')
        for num, inner, i0 in ((k, self.pair, p0), (1, self.abs, a0)) + (((1, self.comp, c0),) if self.comp else ()):
            for q in inner.asked[i0:]:
                S.check(S.true() if q == (num, list(prev), pref, nots) else S.false(),
                        'inner learners get the request as it was made, one point for a rating')
        ask = r == PAIR
        S.check(S.true() if len((self.pair if ask else self.abs).asked) > (p0 if ask else a0) else S.false(),
                'the query was chosen by the inner learner for it')
        S.observe('comparison', ask)
        self.n += 1
        return ask


def draw(S):
    return S.draws[-1][1]


def by_chance(S, got, u, p, label):
    """a rating with probability p"""
    S.check(S.all([S.implies(S.gt(p, u, 0), S.true() if not got else S.false()),
                   S.implies(S.gt(u, p, 0), S.true() if got else S.false())]), label)


def compare(S, got, a, b, label):
    """the comparison (score a) wins if it scores higher; u decides ties"""
    S.check(S.all([S.implies(S.gt(a, b, 0), S.true() if got else S.false()),
                   S.implies(S.gt(b, a, 0), S.true() if not got else S.false())]), label)


def chance(name, mk, ps, tier='quick', comp=False):
    """ps: probability of a rating at every call"""
    @case('C21', name, tier=tier, bounds='any draws, %d calls, before and after a new model' % len(ps), weight=len(ps))
    def h(S):
        par = S.real('p', 0.01, 0.99)
        K = Kit(S, lambda A, p, a, c: mk(A, p, a, c, par), comp)
        for run in range(2):
            for i, f in enumerate(ps if run == 0 else ps[:1]):
                n0 = len(S.draws)
                got = K.ask(nots=(i == 1), k=3 if i == 2 else 2, prev=(0,) if i == 2 else ())
                if len(S.draws) == n0:
                    S.check(S.false(), 'the kind of query is drawn at random')
                    return
                by_chance(S, got, draw(S), f(S, par), 'a rating is asked with the scheduled probability')
            K.model = Model()
            K.l.set_model(K.model)
            S.check(S.true() if K.pair.model is K.model and K.abs.model is K.model else S.false(), 'every inner learner gets the new model')


def c(p, q):
    return lambda S, par: S.const(p, q)


chance('random mixture', lambda A, p, a, c, par: A.MixedStrategy(p, a, par), [lambda S, p: p] * 3)
chance('peak schedule', lambda A, p, a, c, par: A.MixedStrategyPeak(p, a, par), [c(1, 10), c(1, 2), c(9, 10)] + [
    (lambda k: lambda S, p: S.const(8, 10) * S.fn('exp', S.const(2 - k, 5)) + S.const(1, 10))(k) for k in (3, 4)])
chance('second peak schedule', lambda A, p, a, c, par: A.MixedStrategyPeak2(p, a, par), [c(1, 10), c(1, 2), c(9, 10)] + [
    (lambda k: lambda S, p: S.const(9, 10) * S.fn('exp', S.const(2 - k, 5)))(k) for k in (3, 4)])
chance('third peak schedule', lambda A, p, a, c, par: A.MixedStrategyPeak3(p, a, par), [c(1, 10), c(1, 2), c(9, 10)] + [
    (lambda k: lambda S, p: S.const(9, 10) * S.fn('exp', (2 - k) * p))(k) for k in (3, 4)])
chance('reversed peak schedule', lambda A, p, a, c, par: A.MixedStrategyRevPeak(p, a, par), [c(9, 10), c(1, 10)] + [lambda S, p: p] * 2)


def fixed(name, mk, want):
    @case('C21', name, bounds='%d calls, before and after a new model' % len(want))
    def h(S):
        K = Kit(S, mk)
        for run in range(2):
            for i, w in enumerate(want):
                got = K.ask(nots=bool(i % 2), k=2 + i % 2)
                S.check(S.true() if got == w else S.false(), 'the kind of query follows the schedule')
            K.model = Model()
            K.l.set_model(K.model)


fixed('ratings first', lambda A, p, a, c: A.MixedComparisionSetFixed(p, a), [False] * 8 + [True] * 12)
fixed('alternating', lambda A, p, a, c: A.MixedAlternating(p, a), [True, False] * 12)


@case('C21', 'higher score wins', bounds='any scores (ties included), any draws, 2 calls')
def _rc(S):
    K = Kit(S, lambda A, p, a, c: A.RateChooseLearner(p, a))
    for i in range(2):
        K.pair.score, K.abs.score = S.real('pair', -3, 3), S.real('abs', -3, 3)
        n0 = len(S.draws)
        got = K.ask(nots=bool(i), prev=(0,) if i else (), pref=2 if i else None)
        compare(S, got, K.pair.score, K.abs.score, 'the query with the higher score is asked')
        S.check(S.true() if K.pair.calls[-1][1] is not None and K.abs.calls[-1][1][0] == K.pair.calls[-1][1][0] else S.false(),
                'both kinds of query are scored on the same reward samples')
        if len(S.draws) > n0:
            by_chance(S, got, draw(S), S.const(1, 2), 'ties are broken evenly')


@case('C21', 'weighted scores', bounds='any scores and weights (ties included), any draws, 2 calls')
def _mc(S):
    al = S.real('alpha', 0, 1)
    K = Kit(S, lambda A, p, a, c: A.MixedComparision(p, a, c, alpha=al), True)
    for i in range(2):
        K.pair.score, K.comp.score = S.real('pair', -3, 3), S.real('abs', -3, 3)
        n0 = len(S.draws)
        got = K.ask(nots=bool(i))
        a, b = (1 - al) * K.pair.score, al * K.comp.score
        compare(S, got, a, b, 'the query with the higher weighted score is asked')
        S.check(S.true() if K.pair.calls[-1][1] is not None and K.comp.calls[-1][1][0] == K.pair.calls[-1][1][0] else S.false(),
                'both kinds of query are scored on the same reward samples')
        if len(S.draws) > n0:
            S.check(S.eq(a, b), 'only a tie is broken at random')
            by_chance(S, got, draw(S), S.const(1, 2), 'ties are broken evenly')
        else:
            S.check(S.not_(S.eq(a, b, 0)), 'a tie is broken at random')


@case('C21', 'indistinguishable pairs', bounds='any scores, effect sizes and limits, candidates with and without shared features')
def _eq(S):
    lim = S.real('limit', 0.01, 0.5)
    eta = S.real('eta', 0, 1)
    K = Kit(S, lambda A, p, a, c: A.MixedComparisionEqualChecking(p, a, c, eta_2_limit=lim), True)
    seen = []

    def eff(x, y, paired=False, eftype=None, **k):
        seen.append((x, y, paired, eftype))
        return eta
    S.patch(K.l, 'compute_effsize', eff)
    K.pair.score, K.comp.score = S.real('pair', -3, 3), S.real('abs', -3, 3)
    same = S.boolean('shared feature')
    X = S.array([[S.const(0 if same else i), S.const(i * i)] for i in range(N)])
    nots = S.boolean('report')
    got = K.ask(X=X, nots=nots)
    a, b = K.pair.score, K.comp.score
    if len(seen) == 1:
        x, y, paired, kind = seen[0]
        Q = K.pair.calls[-1][1][1]
        S.check(S.all([S.eq(x[k], Q[k, PAIR[0]], 0) for k in range(2)] + [S.eq(y[k], Q[k, PAIR[1]], 0) for k in range(2)]),
                'the effect size compares the rewards of the pair')
        S.check(S.true() if paired and kind == 'eta-square' else S.false(), 'the effect size is the paired eta squared')
    if same:
        S.check(S.implies(S.gt(lim, eta, 0), S.true() if not got else S.false()), 'a pair that cannot be told apart is not asked')
        S.check(S.implies(S.all([S.gt(eta, lim, 0), S.gt(a, b, 0)]), S.true() if got else S.false()), 'otherwise the query with the higher score is asked')
        S.check(S.implies(S.gt(b, a, 0), S.true() if not got else S.false()), 'otherwise the query with the higher score is asked')
    else:
        compare(S, got, a, b, 'otherwise the query with the higher score is asked')


def decision(name, mk, sched, calls, tier):
    """calls: number of calls after the first decision"""
    @case('C21', '%s: %d calls' % (name, 6 + calls), tier=tier, weight=2 ** calls, budget=150 if tier == 'quick' else 2000,
          bounds='any draws and scores from the sixth call on, both scores with the same sign')
    def h(S):
        par = S.real('p', 0.05, 0.9)
        K = Kit(S, lambda A, p, a, c: mk(A, p, a, c, par), True)
        prob = K.l.mixed_probability
        K.l.mixed_probability = lambda: 1
        for i in range(5):
            S.check(S.true() if not K.ask() else S.false(), 'a rating with probability one')
        K.l.mixed_probability = prob
        state = 0
        for i in range(5, 6 + calls):
            n0 = len(S.draws)
            if i in (5, 10, 15):
                sg = -1 if S.boolean('negative') else 1
                a, b = sg * S.real('pair', 0.1, 9), sg * S.real('abs', 0.1, 9)
                K.pair.score, K.comp.score = a, b
                c0 = len(K.pair.calls)
                got = K.ask()
                sm = K.comp.calls[-1][1]
                S.check(S.true() if sm is not None and any(x[1] is not None and x[1][0] == sm[0] for x in K.pair.calls[c0:]) else S.false(),
                        'both kinds of query are scored on the same reward samples')
                m, n = sg * a, sg * b
                lead = S.any([S.gt(m, 2 * n, 0), S.gt(n, 2 * m, 0)])
                near = S.all([S.gt(2 * n, m, 0), S.gt(2 * m, n, 0)])
                if len(S.draws) == n0:
                    S.check(S.not_(near), 'without a clear lead the schedule goes on')
                    compare(S, got, a, b, 'a clear lead decides the query')
                    state = 2 if got else 1
                else:
                    S.check(S.not_(lead), 'with a clear lead nothing is left to chance')
                    by_chance(S, got, draw(S), sched(S, par, i), 'without a clear lead the schedule goes on')
                    state = 0
            else:
                got = K.ask()
                if len(S.draws) == n0:
                    S.check(S.false(), 'the kind of query is drawn at random')
                    return
                p = sched(S, par, i) if state == 0 else S.const(95, 100) if state == 1 else S.const(5, 100)
                by_chance(S, got, draw(S), p, 'after a clear lead its kind is asked 19 times out of 20, else the schedule goes on')
        K.l.set_model(K.model)
        n0 = len(S.draws)
        by_chance(S, K.ask(), draw(S), sched(S, par, 0), 'a new model starts over')
        S.check(S.true() if K.comp.model is K.model else S.false(), 'every inner learner gets the model')


def thrice(name, mk, sched, u):
    @case('C21', '%s: three decisions' % name, weight=30, budget=150,
          bounds='16 calls, any scores and draws at calls 6, 11 and 16, both scores positive, schedule parameter 0.3; the draws between them are %s' % u)
    def h(S):
        par = S.const(3, 10)
        K = Kit(S, lambda A, p, a, c: mk(A, p, a, c, par), True)
        state = 0
        for i in range(17):
            n0 = len(S.draws)
            if i not in (5, 10, 15):
                rnd = S.np.random.random
                S.np.random.random = lambda *a: S.const(int(100 * u), 100)
                try:
                    got = K.ask()
                finally:
                    S.np.random.random = rnd
                p = sched(S, par, i) if state == 0 else S.const(95, 100) if state == 1 else S.const(5, 100)
                by_chance(S, got, draw(S) if len(S.draws) > n0 else S.const(int(100 * u), 100), p,
                          'after a clear lead its kind is asked 19 times out of 20, else the schedule goes on')
                continue
            a, b = S.real('pair', 0.1, 9), S.real('abs', 0.1, 9)
            K.pair.score, K.comp.score = a, b
            c0, d0 = len(K.pair.calls), len(K.comp.calls)
            got = K.ask()
            S.check(S.true() if len(K.comp.calls) > d0 and len(K.pair.calls) > c0 else S.false(), 'both kinds of query are scored every five calls')
            if len(K.comp.calls) == d0:
                return
            lead = S.any([S.gt(a, 2 * b, 0), S.gt(b, 2 * a, 0)])
            near = S.all([S.gt(2 * b, a, 0), S.gt(2 * a, b, 0)])
            if len(S.draws) == n0:
                S.check(S.not_(near), 'without a clear lead the schedule goes on')
                compare(S, got, a, b, 'a clear lead decides the query')
                state = 2 if got else 1
            else:
                S.check(S.not_(lead), 'with a clear lead nothing is left to chance')
                by_chance(S, got, draw(S), sched(S, par, i), 'without a clear lead the schedule goes on')
                state = 0


def peak3(S, p, i):
    return [S.const(1, 10), S.const(1, 2), S.const(9, 10)][i] if i < 3 else S.const(9, 10) * S.fn('exp', (2 - i) * p)


def rev(S, p, i):
    return [S.const(9, 10), S.const(1, 10)][i] if i < 2 else p


decision('decision by scores', lambda A, p, a, c, par: A.MixedDecision(p, a, c, par), peak3, 2, 'quick')
decision('decision by scores, reversed', lambda A, p, a, c, par: A.MixedDecision2(p, a, c, par), rev, 2, 'quick')
decision('decision by scores', lambda A, p, a, c, par: A.MixedDecision(p, a, c, par), peak3, 6, 'thorough')
decision('decision by scores, reversed', lambda A, p, a, c, par: A.MixedDecision2(p, a, c, par), rev, 6, 'thorough')


@case('C21', 'decision by alignment', bounds='3 scheduled calls, then any alignment scores')
def _ad(S):
    n = S.choice('scheduled', 4)
    K = Kit(S, lambda A, p, a, c: A.AlignmentDecision(p, a, n))
    S.check(S.true() if K.l.model is K.model else S.false(), 'the learner keeps the model')
    want, sc = S.boolean('comparison'), (S.real('rate', -1, 1), S.real('pref', -1, 1))
    asked = []
    K.l.determine_query_type = lambda X: (asked.append(K.n), want, *sc)[1:]
    for i in range(n + 2):
        got = K.ask(nots=i == 1)
        S.check(S.true() if got == (want if i >= n else i % 2 == 0) else S.false(), 'queries alternate until the decision')
        if i >= n:
            S.check(S.true() if K.scores[0] is sc[0] and K.scores[1] is sc[1] else S.false(), 'the scores of the decision are reported')
    S.check(S.true() if asked == list(range(n, n + 2)) else S.false(), 'the decision is made for every query after the schedule')
    K.l.set_model(K.model)
    if n:
        S.check(S.true() if K.ask() and len(asked) == 2 else S.false(), 'a new model starts over')


@case('C21', 'alignment of comparisons and ratings', bounds='any alignments of 2 reward samples')
def _dq(S):
    K = Kit(S, lambda A, p, a, c: A.AlignmentDecision(p, a, 1))
    m, p = K.model, K.pair
    m.probit_idxs = {'relative_discrete': 0, 'ordinal': 1, 'abs': 2}
    pref, rate = ['pref'], ['rate']
    m.y_train = [pref, None, rate]
    m.optimized = True
    m.cov = None
    m.fit = ('pref', 'rate')
    mu = S.array([S.const(i) for i in (2, 1, 3)])

    def optimize(*a, **k):
        m.fit = tuple(y[0] for y in m.y_train if y is not None)
        m.optimized = True

    def predict(X):
        if not m.optimized:
            optimize()
        return mu, None
    m.optimize, m.predict = optimize, predict
    R = {('pref', 'rate'): 0, ('pref',): 1, ('rate',): 2}
    p.get_representative_Q = lambda X=None: (points(S), None)

    def samples(X, r, *a, **k):
        predict(X)
        c = R[m.fit]
        return S.array([[S.const((i * (c + 2) + k + c) % 5) for i in range(N)] for k in range(2)]), None
    p.get_samples_from_model = samples
    F = {1: S.reals('pref', (2, 2), -1, 1), 2: S.reals('rate', (2, 2), -1, 1)}
    full = [[float((i * 2 + k) % 5) for i in range(N)] for k in range(2)]

    def between(a, b, *r, **k):
        is_ = lambda x, c: all(float(x[k][i]) == float((i * (c + 2) + k + c) % 5) for k in range(2) for i in range(N))
        c = [c for c in (1, 2) if is_(a, c)]
        S.check(S.true() if c and is_(b, 0) else S.false(), 'samples from one kind of data are compared with samples from all data')
        if not c:
            S.cut()
        return F[c[0]]
    p.alignment_between = between
    p.M = 7
    miss = S.choice('missing', 3)       # nothing, or one kind of data
    if miss:
        data = m.y_train = [None, None, rate] if miss == 1 else [pref, None, None]
        R.update({(): miss})
        R[m.fit] = 0
        m.fit = tuple(y[0] for y in data if y is not None)
        R[m.fit] = 0
        p.alignment_between = lambda a, b, *r, **k: F[1]
        K.l.determine_query_type(points(S))
        S.check(S.true() if m.y_train is data and len(data) == 3 and data[miss - 1 if miss == 1 else 2] is None and data[1] is None
                and data[2 if miss == 1 else 0] is (rate if miss == 1 else pref) else S.false(), 'the data of the model are restored')
        predict(None)
        S.check(S.true() if m.fit == (('rate',) if miss == 1 else ('pref',)) else S.false(), 'the model is fitted to all its data afterwards')
        return
    want, r, q = K.l.determine_query_type(points(S))
    mean = lambda f: (f[0, 0] + f[0, 1] + f[1, 0] + f[1, 1]) / 4
    S.check(S.all([S.eq(r, mean(F[2])), S.eq(q, mean(F[1]))]), 'the scores are the mean alignments of the ratings and the comparisons')
    compare(S, bool(want), mean(F[1]), mean(F[2]), 'the better aligned kind of data is asked for')
    S.check(S.true() if m.y_train == [pref, None, rate] else S.false(), 'the data of the model are restored')
    S.check(S.true() if p.M == 7 else S.false(), 'the number of samples is restored')
    predict(None)
    S.check(S.true() if m.fit == ('pref', 'rate') else S.false(), 'the model is fitted to all its data afterwards')
thrice('decision by scores', lambda A, p, a, c, par: A.MixedDecision(p, a, c, par), peak3, 0.92)
thrice('decision by scores, reversed', lambda A, p, a, c, par: A.MixedDecision2(p, a, c, par), rev, 0.5)
