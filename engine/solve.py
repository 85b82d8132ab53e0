"""Translation of terms to z3 and the decision procedures built on it."""
import math
import os
import random
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import expr as X
from .expr import ONE, ZERO, TRUE, FALSE, PI

STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'lemmas': 0, 'cvc5': 0}

_rv = {}
_zm = {}          # node -> z3 term (numerators only contain polynomials)
_rat = {}
_alias = {}       # function atom -> node replacing it (proved equal)


def rv(fr):
    r = _rv.get(fr)
    if r is None:
        r = _rv[fr] = z3.RealVal(str(fr))
    return r


# ------------------------------------------------ rational normal shape
# rat(n) = (num, den): n = num / prod(f^p), every term free of division at
# the outer level; nothing is expanded, so this is linear in the DAG.

def _isposatom(f):
    return f.op == 'f' and f.args[0] in ('exp', 'gamma_pos')


def rat(n):
    r = _rat.get(n)
    if r is not None:
        return r
    for x in X.postorder([n]):
        if x in _rat:
            continue
        op = x.op
        if op == '+':
            c, it = x.args
            parts = [(rat(t), k) for t, k in it]
            den = {}
            for (nu, d), k in parts:
                for f, p in d.items():
                    if den.get(f, 0) < p:
                        den[f] = p
            num = ZERO
            if c:
                m = X.const(c)
                for f, p in den.items():
                    m = X.mul2(m, X.powi(f, p))
                num = X.add2(num, m)
            for (nu, d), k in parts:
                m = X._scale(nu, k)
                for f, p in den.items():
                    q = p - d.get(f, 0)
                    if q:
                        m = X.mul2(m, X.powi(f, q))
                num = X.add2(num, m)
            r = (num, den)
        elif op == '*':
            c, it = x.args
            num = X.const(c)
            den = {}
            for t, p in it:
                nu, d = rat(t)
                if p > 0:
                    num = X.mul2(num, X.powi(nu, p))
                    for f, q in d.items():
                        den[f] = den.get(f, 0) + q * p
                else:
                    k, fs = X._facs(nu)
                    num = X._scale(num, X.F1 * k ** p)
                    for f, q in fs.items():
                        if q > 0:
                            den[f] = den.get(f, 0) - q * p
                        else:
                            num = X.mul2(num, X.powi(f, q * p))
                    for f, q in d.items():
                        num = X.mul2(num, X.powi(f, -q * p))
            # numerators may have picked up reciprocal atoms again
            r = _normnum(num, den)
        else:
            r = (x, {})
        _rat[x] = r
    return _rat[n]


def _normnum(num, den):
    if num.op == '*':
        c, it = num.args
        if any(p < 0 for _, p in it):
            den = dict(den)
            keep = {}
            for t, p in it:
                if p < 0:
                    den[t] = den.get(t, 0) - p
                else:
                    keep[t] = p
            num = X._build(c, keep)
    # cancel common factors
    if num.op == '*' or num in den:
        c, fs = X._facs(num)
        ch = False
        for f in list(fs):
            if f in den and fs[f] > 0:
                m = min(fs[f], den[f])
                fs[f] -= m
                den = dict(den)
                den[f] -= m
                if den[f] == 0:
                    del den[f]
                ch = True
        if ch:
            num = X._build(c, fs)
    return num, den


# -------------------------------------------------------- z3 translation
def zvar(n):
    return z3.Real(n.args)


def _zatom(n):
    name = 'f!%s!%d' % (n.args[0], n.id)
    return z3.Real(name)


def z(n):
    """z3 term of a (division free or not) node"""
    r = _zm.get(n)
    if r is not None:
        return r
    for x in X.postorder([n]):
        if x in _zm:
            continue
        op = x.op
        if op == 'c':
            r = rv(x.args)
        elif op == 'v':
            r = z3.Real(x.args)
        elif op == 'bv':
            r = z3.Bool(x.args)
        elif op == 'b':
            r = z3.BoolVal(x.args)
        elif op == '+':
            c, it = x.args
            ts = [rv(c)] if c else []
            for t, k in it:
                ts.append(_zm[t] if k == 1 else rv(k) * _zm[t])
            r = z3.Sum(ts) if len(ts) > 1 else ts[0]
        elif op == '*':
            c, it = x.args
            if any(p < 0 for _, p in it):
                nu, den = rat(x)
                a = z(nu)
                b = None
                for f, p in den.items():
                    zf = z(f)
                    for _ in range(p):
                        b = zf if b is None else b * zf
                r = a / b if b is not None else a
            else:
                ts = [rv(c)] if c != 1 else []
                for t, p in it:
                    for _ in range(p):
                        ts.append(_zm[t])
                r = ts[0]
                for t in ts[1:]:
                    r = r * t
        elif op == 'f':
            al = _alias.get(x)
            r = z(al) if al is not None else _zatom(x)
        elif op in ('<', '<=', '='):
            nu, den = rat(x.args)
            zn = z(nu)
            if op != '=':
                for f, p in den.items():
                    if p % 2 and not surely_pos(f):
                        zn = zn * z(f)
            r = zn < 0 if op == '<' else (zn <= 0 if op == '<=' else zn == 0)
        elif op == 'not':
            r = z3.Not(_zm[x.args])
        elif op == 'and':
            r = z3.And(*[_zm[a] for a in x.args])
        elif op == 'ite':
            c, a, b = x.args
            if a.op in ('<', '<=', '=', 'not', 'and', 'b', 'bv'):
                r = z3.If(_zm[c], _zm[a], _zm[b])
            else:
                r = z3.If(_zm[c], z(a), z(b))
        else:
            raise AssertionError(op)
        _zm[x] = r
    return _zm[n]


_pos = {}


def surely_pos(n):
    """syntactic positivity (used only to keep degrees low)"""
    r = _pos.get(n)
    if r is None:
        r = _pos[n] = _sp(n)
    return r


def _sp(n):
    if n.op == 'c':
        return n.args > 0
    if n is PI:
        return True
    if n.op == 'f':
        return n.args[0] in ('exp', 'ndtr')
    if n.op == '+':
        c, it = n.args
        if c < 0:
            return False
        strict = c > 0
        for t, k in it:
            if k < 0:
                return False
            if surely_pos(t):
                strict = True
            elif not surely_nonneg(t):
                return False
        return strict
    if n.op == '*':
        c, it = n.args
        return c > 0 and all(surely_pos(t) for t, p in it)
    return n in POSVARS


POSVARS = set()


def surely_nonneg(n):
    if surely_pos(n):
        return True
    if n.op == 'c':
        return n.args >= 0
    if n.op == 'f' and n.args[0] == 'sqrt':
        return True
    if n.op == '*':
        c, it = n.args
        return c >= 0 and all(p % 2 == 0 or surely_nonneg(t) for t, p in it)
    if n.op == '+':
        c, it = n.args
        return c >= 0 and all(k > 0 and surely_nonneg(t) for t, k in it)
    return False


# ---------------------------------------------------------------- axioms
def side(nodes):
    """function atoms and divisors reachable from the nodes"""
    atoms, divs = [], {}
    haspi = False
    for x in X.postorder(nodes):
        if x.op == 'f':
            atoms.append(x)
        elif x.op == '*':
            for t, p in x.args[1]:
                if p < 0:
                    divs[t] = True
        elif x is PI:
            haspi = True
    return atoms, list(divs), haspi


def axiom(a):
    """contract of one function atom"""
    v = z(a)
    nm = a.args[0]
    out = []
    if a in _alias:
        return out
    if nm == 'exp':
        t = z(a.args[1])
        out = [v > 0, v >= 1 + t, z3.Implies(t <= 0, v <= 1)]
    elif nm == 'sqrt':
        out = [v >= 0, v * v == z(a.args[1])]
    elif nm == 'ndtr':
        t = z(a.args[1])
        out = [v > 0, v < 1, (t > 0) == (v > rv(Fraction(1, 2))), (t < 0) == (v < rv(Fraction(1, 2)))]
    elif nm == 'log':
        t = z(a.args[1])
        out = [v <= t - 1, (t > 1) == (v > 0), (t < 1) == (v < 0)]
    elif nm in ('sin', 'cos'):
        out = [v >= -1, v <= 1]
    elif nm in ('tanh',):
        out = [v > -1, v < 1]
    elif nm == 'gamma':
        out = [z3.Implies(z(a.args[1]) > 0, v > 0)]
    elif nm in ('betainc', 'gammainc', 'mvn_cdf'):
        out = [v >= 0, v <= 1]
    elif nm == 'floor':
        t = z(a.args[1])
        out = [v <= t, v > t - 1, z3.IsInt(v)]
    return out


MONO = ('exp', 'ndtr', 'log', 'sqrt', 'tanh')


def pair_axioms(atoms):
    out = []
    by = {}
    for a in atoms:
        if a not in _alias:
            by.setdefault(a.args[0], []).append(a)
    for nm, l in by.items():
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                a, b = l[i], l[j]
                if nm in MONO:
                    # a function of one increasing argument
                    d = z(X.le0(X.sub2(a.args[1], b.args[1])))
                    d2 = z(X.lt0(X.sub2(a.args[1], b.args[1])))
                    out.append(d == (z(a) <= z(b)))
                    out.append(d2 == (z(a) < z(b)))
                    if nm == 'ndtr':
                        s = X.add2(a.args[1], b.args[1])
                        out.append(z(X.le0(s)) == (z(a) + z(b) <= 1))
                        out.append(z(X.lt0(s)) == (z(a) + z(b) < 1))
                    if nm == 'exp':
                        s = X.add2(a.args[1], b.args[1])
                        out.append(z(X.eq0(s)) == (z(a) * z(b) == 1)) if False else None
                elif len(a.args) == len(b.args):
                    eqs = [z(X.eq0(X.sub2(p, q))) for p, q in zip(a.args[1:], b.args[1:])]
                    out.append(z3.Implies(z3.And(*eqs), z(a) == z(b)))
    return [o for o in out if o is not None]


def base_axioms(nodes):
    atoms, divs, haspi = side(nodes)
    out = []
    for a in atoms:
        out.extend(axiom(a))
    for d in divs:
        if not surely_pos(d):
            nu, den = rat(d)
            out.append(z(nu) != 0)
    if haspi:
        p = z(PI)
        out += [p > rv(Fraction(314159265, 10 ** 8)), p < rv(Fraction(314159266, 10 ** 8))]
    return out, atoms


# ----------------------------------------------------------- raw solving
def run(assertions, timeout=10.0, want_model=True, tactic=None):
    """-> (result, model or None)"""
    t0 = time.time()
    STATS['queries'] += 1
    if tactic is None:
        s = z3.Solver()
    else:
        s = z3.Tactic(tactic).solver() if isinstance(tactic, str) else tactic.solver()
    s.set('timeout', int(timeout * 1000))
    for a in assertions:
        s.add(a)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STATS['time'] += time.time() - t0
    STATS[r] = STATS.get(r, 0) + 1
    m = s.model() if (r == 'sat' and want_model) else None
    return r, m


def run_cvc5(assertions, timeout=20.0):
    t0 = time.time()
    STATS['queries'] += 1
    STATS['cvc5'] += 1
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = '(set-logic QF_NRA)\n' + s.to_smt2().replace('(check-sat)', '') + '\n(check-sat)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True,
                           text=True, timeout=timeout + 5)
        r = o.stdout.strip().split('\n')[0] if '(error' not in o.stdout else 'unknown'
    except Exception:
        r = 'unknown'
    finally:
        os.unlink(f.name)
    if r not in ('sat', 'unsat'):
        r = 'unknown'
    STATS['time'] += time.time() - t0
    STATS[r] += 1
    return r


_som = None


def som(e):
    return z3.simplify(e, som=True, som_blowup=200000, hoist_mul=False, local_ctx=False)


def poly_zero(n, timeout=20.0):
    """Is the term identically 0 (as a rational function of its atoms, square
    roots obeying s*s = argument)?  Decided by z3 on num != 0."""
    nu, den = rat(n)
    if nu is ZERO:
        STATS['queries'] += 1
        STATS['unsat'] += 1
        return True
    e = som(z(nu))
    if z3.is_rational_value(e) and e.as_fraction() == 0:
        # the simplifier already rewrote the numerator to 0; the query is trivial
        STATS['queries'] += 1
        STATS['unsat'] += 1
        return True
    atoms, _, _ = side([nu])
    if any(a.args[0] in ('exp', 'sqrt') for a in atoms):
        # products of exponentials / powers of roots: combine, then ask again
        try:
            x = X.expand(nu)
            for _ in range(4):
                n2, d2 = rat(x)
                if n2 is ZERO or (not d2 and n2 is x):
                    break
                x = X.expand(n2)
            nx, _ = rat(x)
            if nx is ZERO:
                STATS['queries'] += 1
                STATS['unsat'] += 1
                return True
            if congruence([nx]):
                return poly_zero(nx, timeout)
            e2 = som(z(nx))
            if z3.is_rational_value(e2) and e2.as_fraction() == 0:
                STATS['queries'] += 1
                STATS['unsat'] += 1
                return True
            atoms, _, _ = side([nx])
            nu, e = nx, e2
        except X.TooBig:
            pass
    sq = [a for a in atoms if a.args[0] == 'sqrt' and a not in _alias]
    if sq:
        ax = []
        for a in sq:
            an, ad = rat(a.args[1])
            lhs = z(a) * z(a)
            for f, p in ad.items():
                for _ in range(p):
                    lhs = lhs * z(f)
                ax.append(z(f) != 0)
            ax.append(lhs == z(an))
        r, _ = run(ax + [e != 0], timeout=timeout, want_model=False)
        if r == 'unsat':
            return True
        r, _ = run(ax + [e != 0], timeout=timeout, want_model=False, tactic='qfnra-nlsat')
        return r == 'unsat'
    return False


# -------------------------------------------------- congruence of atoms
_fp = {}
_rng = random.Random(12345)
_fpenv = {}


def _fpe(k):
    class E(dict):
        def __missing__(self, key):
            if isinstance(key, str) and key.startswith('uf:'):
                raise KeyError(key)
            r = random.Random('%s/%d' % (key, k)).uniform(0.6, 1.7)
            self[key] = r
            return r

        def __contains__(self, key):
            return not (isinstance(key, str) and key.startswith('uf:'))
    if k not in _fpenv:
        _fpenv[k] = E()
    return _fpenv[k]


def fingerprint(n):
    f = _fp.get(n)
    if f is None:
        try:
            f = tuple(X.evaluate([n], _fpe(k))[0] for k in range(2))
        except X.Unsupported:
            f = ('x', n.id)
        _fp[n] = f
    return f


def _close(a, b):
    if isinstance(a[0], str) or isinstance(b[0], str):
        return a == b
    return all((x == y) or abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)) for x, y in zip(a, b))


_cong_done = set()


def congruence(nodes):
    """merge function atoms whose arguments are provably equal; returns True if
    new aliases were found (translations must be rebuilt)"""
    atoms, _, _ = side(nodes)
    by = {}
    new = False
    for a in atoms:
        if a in _alias:
            continue
        l = by.setdefault(a.args[0], [])
        for b in l:
            if (a.id, b.id) in _cong_done or len(a.args) != len(b.args):
                continue
            ok = all(_close(fingerprint(p), fingerprint(q)) for p, q in zip(a.args[1:], b.args[1:]))
            if ok:
                _cong_done.add((a.id, b.id))
                if all(poly_zero(X.sub2(p, q)) for p, q in zip(a.args[1:], b.args[1:])):
                    STATS['lemmas'] += 1
                    _alias[a] = b
                    new = True
                    break
            if a.args[0] in ('ndtr', 'sin', 'tanh', 'erf', 'cos') and len(a.args) == 2:
                fa, fb = fingerprint(a.args[1]), fingerprint(b.args[1])
                if not isinstance(fa[0], str) and not isinstance(fb[0], str) and _close(fa, tuple(-q for q in fb)):
                    if poly_zero(X.add2(a.args[1], b.args[1])):
                        STATS['lemmas'] += 1
                        _alias[a] = (X.sub2(ONE, b) if a.args[0] == 'ndtr' else
                                     b if a.args[0] == 'cos' else X.neg(b))
                        new = True
                        break
        else:
            l.append(a)
    if new:
        _zm.clear()
        _fp_clear()
    return new


def _fp_clear():
    pass


def model_value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
