"""C17: the Metropolis-Hastings chain only moves as the acceptance rule allows."""
from engine.api import case


def mk(n, burn, dim, infs, tier='quick'):
    @case('C17', 'chain of %d after %d burned, dimension %d%s' % (n, burn, dim, ', with impossible states' if infs else ''),
          tier=tier, bounds='any log likelihood values, proposals and uniform draws', validate=6, weight=n + burn)
    def h(S):
        props, lls, given, seen = [], [], [], []

        def ll(x):
            seen.append([x[i] for i in range(dim)])
            if infs and S.boolean('impossible'):
                v = -S.np.inf
            else:
                v = S.real('ll', -20, 20)
            lls.append(v)
            return v

        def prop(x):
            given.append([x[i] for i in range(dim)])
            p = S.reals('prop', dim, -5, 5)
            props.append(p)
            return p
        s = S.lop.utilities.mcmc_sampling.metropolis_hastings(ll, n, dim=dim, num_to_burn=burn, prop_distribution=prop)
        S.observe('chain', s)
        S.check(S.true() if tuple(s.shape) == (n, dim) else S.false(), 'the requested number of samples')
        S.check(S.true() if len(props) == n + burn and len(lls) == n + burn + 1 else S.false(),
                'one proposal per step, each state scored once')
        u = [v for k, v in S.draws if k == 'u']
        S.check(S.true() if len(u) == dim + n + burn else S.false(), 'one acceptance draw per step')
        u = u[dim:]
        cur, cl = seen[0], lls[0]
        for i in range(dim):
            S.check(S.all([S.ge(cur[i], -1), S.le(cur[i], 1)]), 'the chain starts inside the unit box')
        for t in range(n + burn):
            S.check(S.all([S.eq(given[t][i], cur[i], 0) for i in range(dim)]),
                    'each proposal is made from the current state')
            S.check(S.all([S.eq(seen[t + 1][i], props[t][i], 0) for i in range(dim)]), 'the proposal is what is scored')
            pl = lls[t + 1]
            if isinf(pl):
                acc = False
            elif isinf(cl):
                acc = True
            else:
                r = S.fn('exp', pl - cl)
                acc = bool(r > u[t])
                if acc is False:
                    S.check(S.gt(cl, pl), 'a proposal at least as likely is always accepted')
            if acc:
                cur, cl = [props[t][i] for i in range(dim)], pl
            if t >= burn:
                S.check(S.all([S.eq(s[t - burn, i], cur[i], 0) for i in range(dim)]),
                        'a sample is the accepted proposal or the previous state')


def isinf(v):
    return isinstance(v, float) and v == float('-inf')


mk(1, 0, 1, False)
mk(2, 0, 1, True)
mk(2, 1, 1, True)
mk(3, 2, 1, False)
mk(2, 2, 2, False)
mk(3, 1, 2, False)
mk(4, 3, 1, True, 'thorough')
mk(5, 3, 2, False, 'thorough')


@case('C17', 'default proposals', bounds='chain of 2, any random draws')
def _d(S):
    ys = []

    def ll(x):
        ys.append(x[0])
        return S.real('ll', -20, 20)
    s = S.lop.utilities.mcmc_sampling.metropolis_hastings(ll, 2, num_to_burn=0)
    z = [v for k, v in S.draws if k == 'normal']
    u = [v for k, v in S.draws if k == 'u']
    S.check(S.true() if len(z) == 2 and len(ys) == 3 else S.false(), 'one proposal per step')
    S.check(S.eq(ys[1], ys[0] + 2 * z[0]), 'the default proposal is a normal step of deviation 2 around the current state')
    S.check(S.eq(ys[2], s[0, 0] + 2 * z[1]), 'the default proposal is a normal step of deviation 2 around the current state')
    S.check(S.all([S.any([S.eq(s[0, 0], ys[0]), S.eq(s[0, 0], ys[1])]), S.any([S.eq(s[1, 0], s[0, 0]), S.eq(s[1, 0], ys[2])])]),
            'a sample is the accepted proposal or the previous state')


def long_chain(n, burn, dim):
    @case('C17', 'long chain of %d after %d burned, dimension %d' % (n, burn, dim), weight=3,
          bounds='a fixed pattern of better and impossible proposals, any proposals, log likelihoods and draws')
    def h(S):
        props, seen, cur = [], [], [None]

        def ll(x):
            t = len(seen)
            seen.append([x[i] for i in range(dim)])
            if t == 0:
                cur[0] = S.real('ll0', -20, 0)
                return cur[0]
            if t % 3 == 2 or t % 5 == 4:
                return -S.np.inf
            cur[0] = cur[0] + S.real('up', 0, 1)
            return cur[0]

        def prop(x):
            props.append((S.reals('prop', dim, -5, 5), [x[i] for i in range(dim)]))
            return props[-1][0]
        s = S.lop.utilities.mcmc_sampling.metropolis_hastings(ll, n, dim=dim, num_to_burn=burn, prop_distribution=prop)
        S.check(S.true() if tuple(s.shape) == (n, dim) else S.false(), 'the requested number of samples')
        S.check(S.true() if len(props) == n + burn else S.false(), 'one proposal per step')
        x = seen[0]
        for t in range(min(n + burn, len(props))):
            S.check(S.all([S.eq(props[t][1][i], x[i], 0) for i in range(dim)]), 'each proposal is made from the current state')
            if not ((t + 1) % 3 == 2 or (t + 1) % 5 == 4):
                x = [props[t][0][i] for i in range(dim)]
            if t >= burn:
                S.check(S.all([S.eq(s[t - burn, i], x[i], 0) for i in range(dim)]),
                        'a sample is the accepted proposal or the previous state')


long_chain(12, 9, 1)
long_chain(30, 4, 2)
long_chain(7, 40, 3)
