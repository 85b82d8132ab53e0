"""C12: the human choice model is a softmax distribution."""
from engine.api import case


def mk_pair(n, tier):
    @case('C12', 'order n=%d' % n, tier=tier, bounds='%d options, all rewards, all p >= 0 (reals)' % n)
    def h(S):
        r = S.reals('r', n)
        p = S.real('p', 0.0)
        q = S.lop.p_human_choice(r, p)
        for i in range(n):
            for j in range(n):
                if i != j:
                    S.check(S.implies(S.ge(r[i], r[j]), S.ge(q[i], q[j])), 'a larger value is at least as likely')

    @case('C12', 'softmax n=%d' % n, tier=tier, bounds='%d options, all rewards, all p >= 0 (reals)' % n)
    def h(S):
        r = S.reals('r', n, -20, 20)
        p = S.real('p', 0.0, 20.0)
        q = S.lop.p_human_choice(r, p)
        for i in range(n):
            for j in range(n):
                if i != j:
                    S.check(S.eq(q[i], q[j] * S.fn('exp', p * (r[i] - r[j]))),
                            'the odds of two options are exp(p times the value difference)')


def mk(n, tier):
    @case('C12', 'distribution n=%d' % n, tier=tier, bounds='%d options, all rewards, all p >= 0 (reals)' % n)
    def h(S):
        r = S.reals('r', n)
        p = S.real('p', 0.0)
        q = S.lop.p_human_choice(r, p)
        S.observe('q', q)
        S.check(S.true() if q.shape == (n,) else S.false(), 'one probability per option')
        t = 0
        for i in range(n):
            S.check(S.ge(q[i], 0), 'probabilities are non-negative')
            t = t + q[i]
        S.check(S.eq(t, 1), 'probabilities add up to one')

    if n > 1:
        mk_pair(n, tier)

    @case('C12', 'shift n=%d' % n, tier=tier, bounds='%d options, all rewards, shifts and p >= 0' % n)
    def h(S):
        r = S.reals('r', n)
        c = S.real('c')
        p = S.real('p', 0.0)
        q = S.lop.p_human_choice(r, p)
        q2 = S.lop.p_human_choice(r + c, p)
        S.check(S.eqv(q, q2), 'adding a constant to all values changes nothing')

    @case('C12', 'finite n=%d' % n, tier=tier, ctx={'exp_underflow': 746}, bounds=
          '%d options, all rewards, p >= 0, with exp() underflowing below -746 and overflowing above 709' % n)
    def h(S):
        r = S.reals('r', n, -1e6, 1e6)
        p = S.real('p', 0.0, 1000.0)
        q = S.lop.p_human_choice(r, p)
        t = 0
        for i in range(n):
            S.check(S.all([S.ge(q[i], 0), S.ge(1, q[i])]), 'every probability is a number in [0,1]')
            t = t + q[i]
        S.check(S.eq(t, 1), 'probabilities add up to one')


for _n in (1, 2, 3):
    mk(_n, 'quick')
mk(4, 'quick')


def mkb(rows, n, tier):
    @case('C12', 'batch %dx%d' % (rows, n), tier=tier, bounds='%d queries of %d options, all rewards, p >= 0' % (rows, n))
    def h(S):
        r = S.reals('r', (rows, n))
        p = S.real('p', 0.0)
        q = S.lop.p_human_choice(r, p)
        S.check(S.true() if q.shape == (rows, n) else S.false(), 'one probability per option of every query')
        for k in range(rows):
            S.check(S.eqv(q[k], S.lop.p_human_choice(r[k], p)), 'a query in a batch gets the probabilities it has alone')

    @case('C12', 'batch finite %dx%d' % (rows, n), tier=tier, ctx={'exp_underflow': 746}, bounds=
          '%d queries of %d options, rewards within +-1e6, p <= 1000, exp() under/overflow modelled' % (rows, n))
    def h(S):
        r = S.reals('r', (rows, n), -1e6, 1e6)
        p = S.real('p', 0.0, 1000.0)
        q = S.lop.p_human_choice(r, p)
        for k in range(rows):
            t = 0
            for i in range(n):
                S.check(S.all([S.ge(q[k, i], 0), S.ge(1, q[k, i])]), 'every probability of a batch is a number in [0,1]')
                t = t + q[k, i]
            S.check(S.eq(t, 1), 'probabilities of each query of a batch add up to one')


mkb(1, 2, 'quick')
mkb(2, 2, 'quick')
mkb(2, 3, 'quick')
mkb(3, 2, 'quick')


@case('C12', 'sampling uses the distribution', bounds='3 options, all rewards, p >= 0, any draw', ctx={'check_p': True})
def _s(S):
    r = S.reals('r', 3)
    p = S.real('p', 0.0)
    S.lop.p_human_choice(r, p)
    i = S.lop.sample_human_choice(r, p)
    S.check(S.true() if int(i) in (0, 1, 2) else S.false(), 'the sampled choice is one of the options')
    k = S.lop.sample_human_choice(r, p, samples=2)
    S.check(S.true() if len(k) == 2 and all(int(x) in (0, 1, 2) for x in k) else S.false(),
            'as many choices as requested are drawn')


@case('C12', 'sampled choices are independent', bounds='2 options, all rewards, p >= 0, 1 to 4 choices, any draw')
def _i(S):
    n = 1 + S.choice('samples', 4)
    r = S.reals('r', 2, -2, 2)
    k = S.lop.sample_human_choice(r, S.real('p', 0.0, 2.0), samples=n)
    S.observe('choices', [int(x) for x in k])
    S.check(S.true() if len(k) == n and all(t == 1 or again for t, again in S.groups) else S.false(), 'a choice does not depend on the ones before')


def sorted_many(n, order):
    @case('C12', 'many options: n=%d in one order' % n, bounds='any rewards in +-20 in the order given (ties included), all p in [0,20]')
    def h(S):
        r = S.reals('r', n, -20, 20)
        p = S.real('p', 0.0, 20.0)
        for a, b in zip(order, order[1:]):
            S.assume(S.ge(r[b], r[a], 0))
        q = S.lop.p_human_choice(r, p)
        S.check(S.true() if q.shape == (n,) else S.false(), 'one probability per option')
        t = 0
        for i in range(n):
            S.check(S.ge(q[i], 0), 'probabilities are non-negative')
            t = t + q[i]
            j = order[-1]
            if i != j:
                S.check(S.eq(q[i], q[j] * S.fn('exp', p * (r[i] - r[j]))),
                        'the odds of two options are exp(p times the value difference)')
        S.check(S.eq(t, 1), 'probabilities add up to one')


sorted_many(7, [3, 0, 6, 2, 5, 1, 4])
sorted_many(12, [(5 * i + 2) % 12 for i in range(12)])


def sorted_finite(n, what, order):
    @case('C12', 'many options stay finite: n=%d in %s order' % (n, what), ctx={'exp_underflow': 746}, bounds=
          'rewards within +-1e6 in the order given (ties included), p <= 1000, exp() under/overflow modelled')
    def h(S):
        r = S.reals('r', n, -1e6, 1e6)
        p = S.real('p', 0.0, 1000.0)
        for a, b in zip(order, order[1:]):
            S.assume(S.ge(r[b], r[a], 0))
        q = S.lop.p_human_choice(r, p)
        t = 0
        for i in range(n):
            S.check(S.all([S.ge(q[i], 0), S.ge(1, q[i])]), 'every probability is a number in [0,1]')
            t = t + q[i]
        S.check(S.eq(t, 1), 'probabilities add up to one')


sorted_finite(12, 'one', [(5 * i + 2) % 12 for i in range(12)])
sorted_finite(10, 'decreasing', [9 - i for i in range(10)])
