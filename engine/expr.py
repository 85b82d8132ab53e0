"""Term language of the symbolic executor.

Terms are hash-consed and kept in a cheap canonical form (commutative sums of
coefficient*term, products of term^int) so that terms which differ only by the
order in which the program built them are one object.  Values of the program
under check are `Sym` (real-valued) and `SymBool` objects wrapping such terms.
"""
import math
from fractions import Fraction

_tab = {}
_ctr = [0]


class Unsupported(Exception):
    """The engine cannot encode what the program did (never a verdict)."""


class N:
    __slots__ = ('op', 'args', 'id', '_cache')

    def __repr__(self):
        return show(self)


def mk(op, args):
    k = (op, args)
    n = _tab.get(k)
    if n is None:
        n = N.__new__(N)
        n.op = op
        n.args = args
        n.id = _ctr[0]
        n._cache = None
        _ctr[0] += 1
        _tab[k] = n
    return n


def reset_terms():
    pass


F0 = Fraction(0)
F1 = Fraction(1)
ZERO = mk('c', F0)
ONE = mk('c', F1)
TRUE = mk('b', True)
FALSE = mk('b', False)


def const(fr):
    return mk('c', fr)


def var(name):
    return mk('v', name)


PI = var('pi!')

_MAXDEN = 100000


def _rat(x):
    """A simple rational equal to float x up to rounding noise, or None."""
    if x == 0:
        return F0
    r = Fraction(repr(x)) if not x != x else None
    if r is not None and r.denominator <= 10 ** 14 and len(str(r.numerator)) <= 13:
        s = repr(x)
        digits = len(s.split('e')[0].replace('.', '').replace('-', '').strip('0'))
        if digits <= 12:
            return r
    q = Fraction(x).limit_denominator(_MAXDEN)
    if q != 0 and abs(Fraction(x) - q) <= abs(q) * Fraction(1, 10 ** 15) * 2:
        return q
    return None


_fcache = {}


def from_float(x):
    """Rounding-free reading of a float constant (0.1 -> 1/10, 1.4142..->sqrt 2)."""
    x = float(x)
    n = _fcache.get(x)
    if n is not None:
        return n
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('non-finite constant in symbolic arithmetic: %r' % x)
    r = _rat(x)
    if r is not None:
        n = const(r)
    else:
        n = None
        sgn = 1 if x > 0 else -1
        ax = abs(x)
        for pw in (1, 2):
            for k in (1, -1):
                v = ax ** pw * math.pi ** k
                q = _rat2(v)
                if q is not None:
                    base = mul2(const(q), powi(PI, -k))
                    n = base if pw == 1 else sqrt(base)
                    break
            if n is not None:
                break
            if pw == 1:
                q = _rat2(ax * ax)
                if q is not None:
                    n = sqrt(const(q))
                    break
        if n is None:
            n = const(Fraction(repr(x)))
        elif sgn < 0:
            n = neg(n)
    _fcache[x] = n
    return n


def _rat2(v):
    q = Fraction(v).limit_denominator(2000)
    if q != 0 and abs(Fraction(v) - q) <= abs(q) * Fraction(1, 10 ** 15) * 4 and q.numerator < 10 ** 5:
        return q
    return None


# --------------------------------------------------------------- sums
def _lin(n):
    """(constant, {term: coef}) view of n."""
    if n.op == 'c':
        return n.args, {}
    if n.op == '+':
        c, items = n.args
        return c, dict(items)
    if n.op == '*' and n.args[0] != 1:
        return F0, {_mkprod(F1, n.args[1]): n.args[0]}
    return F0, {n: F1}


def _mksum(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1:
        t, k = items[0]
        return _scale(t, k)
    items.sort(key=lambda p: p[0].id)
    return mk('+', (c, tuple(items)))


def _scale(t, k):
    if k == 1:
        return t
    if k == 0:
        return ZERO
    if t.op == 'c':
        return const(t.args * k)
    if t.op == '*':
        return _mkprod(t.args[0] * k, t.args[1])
    if t.op == '+':
        c, items = t.args
        return mk('+', (c * k, tuple((x, y * k) for x, y in items)))
    return mk('*', (k, ((t, 1),)))


def _mkprod(coef, facs):
    if coef == 0:
        return ZERO
    if not facs:
        return const(coef)
    if len(facs) == 1 and facs[0][1] == 1:
        t = facs[0][0]
        if coef == 1:
            return t
        if t.op == '+':
            return _scale(t, coef)
    return mk('*', (coef, tuple(facs)))


def add2(a, b):
    if a.op == 'c' and a.args == 0:
        return b
    if b.op == 'c' and b.args == 0:
        return a
    c1, d1 = _lin(a)
    c2, d2 = _lin(b)
    if len(d1) < len(d2):
        c1, d1, c2, d2 = c2, d2, c1, d1
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, F0) + k
    return _mksum(c1 + c2, d)


def neg(a):
    return _scale(a, Fraction(-1))


def sub2(a, b):
    return add2(a, neg(b))


# ------------------------------------------------------------ products
def _primitive(s):
    """sum s = k * s' with s' having leading coefficient 1."""
    c, items = s.args
    k = items[0][1]
    if k == 1:
        return F1, s
    return k, mk('+', (c / k, tuple((t, q / k) for t, q in items)))


def _facs(n):
    """(coef, {base: int power})"""
    if n.op == 'c':
        return n.args, {}
    if n.op == '*':
        return n.args[0], dict(n.args[1])
    if n.op == '+':
        k, p = _primitive(n)
        return k, {p: 1}
    return F1, {n: 1}


def _build(coef, d):
    if coef == 0:
        return ZERO
    # combine exponentials, reduce square roots
    exps = None
    sq = False
    for t in d:
        if t.op == 'f':
            if t.args[0] == 'exp':
                exps = (exps or 0) + 1
            elif t.args[0] == 'sqrt' and d[t] not in (0, 1):
                sq = True
    if sq:
        out = ONE
        nd = {}
        for t, p in d.items():
            if t.op == 'f' and t.args[0] == 'sqrt' and p not in (0, 1):
                out = mul2(out, powi(t.args[1], p // 2))
                if p % 2:
                    nd[t] = 1
            else:
                nd[t] = p
        return mul2(_build(coef, nd), out)
    if exps and (exps > 1 or any(t.op == 'f' and t.args[0] == 'exp' and d[t] != 1 for t in d)):
        s = ZERO
        nd = {}
        for t, p in d.items():
            if t.op == 'f' and t.args[0] == 'exp':
                s = add2(s, _scale(t.args[1], Fraction(p)))
            else:
                nd[t] = p
        e = fun('exp', s)
        if e.op == 'c':
            coef = coef * e.args
        elif e.op == 'f' and e.args[0] == 'exp':
            nd[e] = nd.get(e, 0) + 1
        else:
            return mul2(_build(coef, nd), e)
        d = nd
    facs = [(t, p) for t, p in d.items() if p != 0]
    facs.sort(key=lambda q: q[0].id)
    return _mkprod(coef, tuple(facs))


def mul2(a, b):
    if a.op == 'c':
        if a.args == 1:
            return b
        return _scale(b, a.args)
    if b.op == 'c':
        if b.args == 1:
            return a
        return _scale(a, b.args)
    c1, d1 = _facs(a)
    c2, d2 = _facs(b)
    d = dict(d1)
    for t, p in d2.items():
        d[t] = d.get(t, 0) + p
    return _build(c1 * c2, d)


def powi(a, n):
    if n == 0:
        return ONE
    if n == 1:
        return a
    if a.op == 'c':
        if a.args == 0 and n < 0:
            raise ZeroDivisionError('symbolic division by constant zero')
        return const(a.args ** n)
    c, d = _facs(a)
    return _build(c ** n, {t: p * n for t, p in d.items()})


def div2(a, b):
    return mul2(a, powi(b, -1))


# ------------------------------------------------------------ functions
def _isq(fr):
    """exact sqrt of a rational or None"""
    if fr < 0:
        return None
    p, q = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if p * p == fr.numerator and q * q == fr.denominator:
        return Fraction(p, q)
    return None


def sqrt(a):
    return fun('sqrt', a)


def fun(name, *args):
    if len(args) == 1:
        a = args[0]
        if name == 'sqrt':
            if a.op == 'c':
                r = _isq(a.args)
                if r is not None:
                    return const(r)
                if a.args > 0:
                    num = a.args.numerator * a.args.denominator
                    # sqrt(p/q) = sqrt(p q)/q ; pull out square factors
                    k, f = 1, 2
                    m = num
                    while f * f <= m and f < 1000:
                        while m % (f * f) == 0:
                            m //= f * f
                            k *= f
                        f += 1
                    base = mk('f', ('sqrt', const(Fraction(m))))
                    return _scale(base, Fraction(k, a.args.denominator))
            elif a.op == '*' and len(a.args[1]) >= 1 and a.args[0] != 1:
                k = a.args[0]
                if k > 0:
                    return mul2(sqrt(const(k)), sqrt(_mkprod(F1, a.args[1])))
        elif name == 'exp':
            if a.op == 'c' and a.args == 0:
                return ONE
            if a.op == 'f' and a.args[0] == 'log':
                return a.args[1]
        elif name == 'log':
            if a.op == 'c' and a.args == 1:
                return ZERO
            if a.op == 'f' and a.args[0] == 'exp':
                return a.args[1]
            if a.op == 'f' and a.args[0] == 'sqrt':
                return _scale(fun('log', a.args[1]), Fraction(1, 2))
        elif name in ('sin', 'tanh', 'erf', 'log1p', 'expm1', 'arctan'):
            if a.op == 'c' and a.args == 0:
                return ZERO
            # odd functions: normalise the sign
            if name in ('sin', 'tanh', 'erf', 'arctan') and _leadneg(a):
                return neg(fun(name, neg(a)))
        elif name == 'cos':
            if a.op == 'c' and a.args == 0:
                return ONE
            if _leadneg(a):
                return fun(name, neg(a))
        elif name == 'ndtr':
            if a.op == 'c' and a.args == 0:
                return const(Fraction(1, 2))
            if _leadneg(a):
                return sub2(ONE, fun('ndtr', neg(a)))
        elif name == 'log_ndtr':
            return fun('log', fun('ndtr', a))
    return mk('f', (name,) + tuple(args))


def _leadneg(a):
    if a.op == 'c':
        return a.args < 0
    if a.op == '*':
        return a.args[0] < 0
    if a.op == '+':
        return a.args[1][0][1] < 0
    return False


# -------------------------------------------------------------- booleans
def lt0(e):
    if e.op == 'c':
        return TRUE if e.args < 0 else FALSE
    if _leadneg(e):
        return bnot(_cmp('<=', neg(e)))
    return _cmp('<', e)


def le0(e):
    if e.op == 'c':
        return TRUE if e.args <= 0 else FALSE
    if _leadneg(e):
        return bnot(_cmp('<', neg(e)))
    return _cmp('<=', e)


def eq0(e):
    if e.op == 'c':
        return TRUE if e.args == 0 else FALSE
    if _leadneg(e):
        e = neg(e)
    return _cmp('=', e)


def _cmp(op, e):
    # e has a positive leading coefficient: scale it to 1
    if e.op == '+':
        k, e = _primitive(e)
    elif e.op == '*':
        e = _mkprod(F1, e.args[1])
    return mk(op, e)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args
    return mk('not', b)


def band(bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == 'and':
            out.extend(b.args)
        else:
            out.append(b)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    s = set(out)
    for b in out:
        if bnot(b) in s:
            return FALSE
    return mk('and', tuple(out))


def bor(bs):
    return bnot(band([bnot(b) for b in bs]))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk('ite', (c, a, b))


# ---------------------------------------------------------- traversal
def kids(n):
    op = n.op
    if op in ('c', 'v', 'b', 'bv'):
        return ()
    if op == '+':
        return tuple(t for t, _ in n.args[1])
    if op == '*':
        return tuple(t for t, _ in n.args[1])
    if op == 'f':
        return n.args[1:]
    if op in ('<', '<=', '=', 'not'):
        return (n.args,)
    if op in ('and', 'ite'):
        return n.args
    raise AssertionError(op)


def postorder(roots):
    seen = set()
    out = []
    st = [(r, False) for r in reversed(list(roots))]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        st.append((n, True))
        for k in kids(n):
            if k not in seen:
                st.append((k, False))
    return out


def show(n, depth=6):
    if depth < 0:
        return '..'
    op = n.op
    if op == 'c':
        return str(n.args)
    if op in ('v', 'bv'):
        return n.args
    if op == 'b':
        return str(n.args)
    if op == '+':
        c, it = n.args
        s = ' + '.join(('%s*%s' % (k, show(t, depth - 1)) if k != 1 else show(t, depth - 1)) for t, k in it)
        return '(' + (str(c) + ' + ' if c else '') + s + ')'
    if op == '*':
        c, it = n.args
        s = '*'.join((show(t, depth - 1) + ('^%d' % p if p != 1 else '')) for t, p in it)
        return (str(c) + '*' if c != 1 else '') + s
    if op == 'f':
        return n.args[0] + '(' + ', '.join(show(a, depth - 1) for a in n.args[1:]) + ')'
    if op in ('<', '<=', '='):
        return '(%s %s 0)' % (show(n.args, depth - 1), op)
    if op == 'not':
        return '!' + show(n.args, depth - 1)
    if op == 'and':
        return '(' + ' & '.join(show(a, depth - 1) for a in n.args) + ')'
    if op == 'ite':
        return 'ite(%s)' % ', '.join(show(a, depth - 1) for a in n.args)
    return op


# ------------------------------------------------------- differentiation
def _dfun(name, args):
    """partial derivatives of a function application w.r.t. its arguments"""
    a = args[0]
    if name == 'exp':
        return [fun('exp', a)]
    if name == 'log':
        return [powi(a, -1)]
    if name == 'sqrt':
        return [div2(const(Fraction(1, 2)), sqrt(a))]
    if name == 'sin':
        return [fun('cos', a)]
    if name == 'cos':
        return [neg(fun('sin', a))]
    if name == 'ndtr':
        return [npdf(a)]
    if name == 'log_ndtr':
        return [div2(npdf(a), fun('ndtr', a))]
    if name == 'lgamma':
        return [fun('polygamma', ZERO, a)]
    if name == 'gamma':
        return [mul2(fun('gamma', a), fun('polygamma', ZERO, a))]
    if name == 'polygamma':
        return [None, fun('polygamma', add2(a, ONE), args[1])]
    if name == 'tanh':
        return [sub2(ONE, powi(fun('tanh', a), 2))]
    if name == 'arctan':
        return [powi(add2(ONE, powi(a, 2)), -1)]
    raise Unsupported('derivative of ' + name)


def npdf(a):
    """standard normal density as a term: exp(-a^2/2)/sqrt(2 pi)"""
    return mul2(powi(sqrt(mul2(const(Fraction(2)), PI)), -1),
                fun('exp', _scale(powi(a, 2), Fraction(-1, 2))))


def diff(n, v, memo=None):
    """d n / d v for a variable node v"""
    memo = {} if memo is None else memo
    for x in postorder([n]):
        if x in memo:
            continue
        op = x.op
        if x is v:
            r = ONE
        elif op in ('c', 'v'):
            r = ZERO
        elif op == '+':
            r = ZERO
            for t, k in x.args[1]:
                r = add2(r, _scale(memo[t], k))
        elif op == '*':
            c, it = x.args
            r = ZERO
            for i, (t, p) in enumerate(it):
                dt = memo[t]
                if dt is ZERO:
                    continue
                rest = {q: e for j, (q, e) in enumerate(it) if j != i}
                if p != 1:
                    rest[t] = p - 1
                r = add2(r, mul2(_build(c * p, rest), dt))
        elif op == 'f':
            r = ZERO
            ds = [memo[a] for a in x.args[1:]]
            if any(d is not ZERO for d in ds):
                parts = _dfun(x.args[0], x.args[1:])
                for p, d in zip(parts, ds):
                    if d is not ZERO:
                        if p is None:
                            raise Unsupported('derivative in parameter of ' + x.args[0])
                        r = add2(r, mul2(p, d))
        elif op == 'ite':
            c, a, b = x.args
            r = ite(c, memo[a], memo[b])
        elif op in ('<', '<=', '=', 'not', 'and', 'b', 'bv'):
            r = ZERO
        else:
            raise Unsupported('derivative of op ' + op)
        memo[x] = r
    return memo[n]


def subst(n, mp):
    """replace variable nodes by terms"""
    memo = dict(mp)
    for x in postorder([n]):
        if x in memo:
            continue
        op = x.op
        if op in ('c', 'v', 'b', 'bv'):
            r = x
        elif op == '+':
            r = const(x.args[0])
            for t, k in x.args[1]:
                r = add2(r, _scale(memo[t], k))
        elif op == '*':
            r = const(x.args[0])
            for t, p in x.args[1]:
                r = mul2(r, powi(memo[t], p))
        elif op == 'f':
            r = fun(x.args[0], *[memo[a] for a in x.args[1:]])
        elif op == '<':
            r = lt0(memo[x.args])
        elif op == '<=':
            r = le0(memo[x.args])
        elif op == '=':
            r = eq0(memo[x.args])
        elif op == 'not':
            r = bnot(memo[x.args])
        elif op == 'and':
            r = band([memo[a] for a in x.args])
        elif op == 'ite':
            r = ite(*[memo[a] for a in x.args])
        else:
            raise AssertionError(op)
        memo[x] = r
    return memo[n]


# ------------------------------------------------------------ evaluation
def _numfun(name):
    import scipy.special as sp
    tab = {
        'exp': lambda a: math.exp(a) if a < 700 else math.inf,
        'log': lambda a: math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan),
        'sqrt': lambda a: math.sqrt(a) if a >= 0 else math.nan,
        'sin': math.sin, 'cos': math.cos, 'tanh': math.tanh, 'arctan': math.atan,
        'ndtr': lambda a: float(sp.ndtr(a)), 'log_ndtr': lambda a: float(sp.log_ndtr(a)),
        'lgamma': lambda a: float(sp.gammaln(a)), 'gamma': lambda a: float(sp.gamma(a)),
        'polygamma': lambda n, a: float(sp.polygamma(int(n), a)),
        'betainc': lambda a, b, x: float(sp.betainc(a, b, x)),
        'gammainc': lambda a, x: float(sp.gammainc(a, x)),
        'erf': math.erf, 'erfinv': lambda a: float(sp.erfinv(a)),
        'ndtri': lambda a: float(sp.ndtri(a)),
        'pow': lambda a, b: a ** b if a > 0 else math.nan,
        'floor': math.floor,
        'mvn_cdf': _mvn_num,
    }
    return tab.get(name)


def _mvn_num(d, *a):
    import numpy as np
    from scipy.stats import multivariate_normal as mv
    d = int(d)
    x, mu, cov = a[:d], a[d:2 * d], np.array(a[2 * d:]).reshape(d, d)
    return float(mv.cdf(np.array(x), mean=np.array(mu), cov=cov))


_nf = {}


def evaluate(roots, env):
    """numeric (float) evaluation of terms; env: {variable name: number}"""
    memo = {}
    for x in postorder(roots):
        op = x.op
        try:
            if op == 'c':
                r = float(x.args)
            elif op in ('v', 'bv'):
                if x is PI:
                    r = math.pi
                else:
                    r = env[x.args]
                    r = bool(r) if op == 'bv' else float(r)
            elif op == 'b':
                r = x.args
            elif op == '+':
                r = float(x.args[0])
                for t, k in x.args[1]:
                    r += float(k) * memo[t]
            elif op == '*':
                r = float(x.args[0])
                for t, p in x.args[1]:
                    b = memo[t]
                    r *= (b ** p if (b != 0 or p > 0) else math.nan)
            elif op == 'f':
                nm = x.args[0]
                if nm not in _nf:
                    _nf[nm] = _numfun(nm)
                f = _nf[nm]
                if f is None:
                    key = 'uf:' + nm
                    if key in env:
                        r = env[key](*[memo[a] for a in x.args[1:]])
                    else:
                        raise Unsupported('no numeric meaning for ' + nm)
                else:
                    r = f(*[memo[a] for a in x.args[1:]])
            elif op == '<':
                r = memo[x.args] < 0
            elif op == '<=':
                r = memo[x.args] <= 0
            elif op == '=':
                r = abs(memo[x.args]) < 1e-12
            elif op == 'not':
                r = not memo[x.args]
            elif op == 'and':
                r = all(memo[a] for a in x.args)
            elif op == 'ite':
                c, a, b = x.args
                r = memo[a] if memo[c] else memo[b]
            else:
                raise AssertionError(op)
        except (OverflowError, ZeroDivisionError, ValueError):
            r = math.nan
        memo[x] = r
    return [memo[r] for r in roots]


# ------------------------------------------------------------- expansion
class TooBig(Exception):
    pass


def expand(n, limit=20000, memo=None):
    """distribute products over sums (division is left alone); products of
    exponentials and powers of square roots combine on the way"""
    memo = {} if memo is None else memo
    for x in postorder([n]):
        if x in memo:
            continue
        op = x.op
        if op == '+':
            r = const(x.args[0])
            for t, k in x.args[1]:
                r = add2(r, _scale(memo[t], k))
        elif op == '*':
            c, it = x.args
            acc = {ONE: c}
            for t, p in it:
                m = memo[t]
                if p < 0:
                    f = powi(m, p)
                    acc = {mul2(a, f): k for a, k in acc.items()}
                    acc = _renorm(acc)
                    continue
                for _ in range(p):
                    c0, d = _lin(m)
                    nx = {}
                    its = list(d.items())
                    if c0:
                        its.append((ONE, c0))
                    if len(its) * len(acc) > limit:
                        raise TooBig()
                    for a, k in acc.items():
                        for b, q in its:
                            y = mul2(a, b)
                            nx[y] = nx.get(y, F0) + k * q
                    acc = _renorm(nx)
            r = _accsum(acc)
            if any(_needs(y) for y in acc):
                r = expand(r, limit, memo) if r is not x else r
        elif op == 'f':
            r = fun(x.args[0], *[memo[a] for a in x.args[1:]])
        else:
            r = x
        memo[x] = r
    return memo[n]


def _needs(y):
    return y.op == '*' and any(t.op == '+' and p > 0 for t, p in y.args[1])


def _renorm(acc):
    out = {}
    for y, k in acc.items():
        c0, d = _lin(y)
        if c0:
            out[ONE] = out.get(ONE, F0) + c0 * k
        for t, q in d.items():
            out[t] = out.get(t, F0) + q * k
    return {t: k for t, k in out.items() if k != 0}


def _accsum(acc):
    c = acc.get(ONE, F0)
    return _mksum(c, {t: k for t, k in acc.items() if t is not ONE})
