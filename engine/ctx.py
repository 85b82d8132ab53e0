"""Execution contexts.

A harness is one function h(S) written against the API below.  It is run
  * symbolically (SymCtx): inputs are terms, branches of the program under
    check fork, and S.check() asks the solver for a violating assignment;
  * concretely (ConcCtx): on the unmodified code with numpy, with the values a
    solver model chose; this is the replay that confirms a counterexample and
    the validation that the encoding agrees with the implementation.
"""
import math
import random as _pyrandom
import time
from fractions import Fraction

import numpy as np
import z3

from . import expr as X
from . import solve as Z
from .sym import Sym, SymBool, node, bnode, wrap, wrapb, set_engine

CUR = [None]


def cur():
    return CUR[0]


class PathEnd(BaseException):
    """this path is infeasible / cut"""


class Violation(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


class Hang(BaseException):
    """no branch, choice or solver call for a long time"""


TICK = [0.0]
HANG = 45


def on_alarm(sig, frame):
    if TICK[0] and time.time() - TICK[0] > HANG:
        TICK[0] = time.time() + 1e6
        raise Hang()


class _Space:
    def __init__(self, g):
        object.__setattr__(self, 'g', g)

    def __setattr__(self, k, v):
        self.g[k] = v


class Base:
    def __init__(self):
        self.names = {}
        self.draws = []       # continuous random draws, in order
        self.choice_p = []    # distributions given to random choices
        self.ndraws = 0
        self.groups = []      # how many choices were drawn together, and whether repetitions were possible

    def cut(self):
        """leave this path (outside the stated bound)"""
        raise PathEnd()

    def fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    # -------- shapes
    def reals(self, name, shape, lo=None, hi=None, strict=False):
        if isinstance(shape, int):
            shape = (shape,)
        a = self.new_array(shape)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + ''.join('_%d' % i for i in ix), lo, hi, strict)
        return a

    def le(self, a, b):
        return self.ge(b, a)

    def lt(self, a, b):
        return self.gt(b, a)

    def eqv(self, a, b, tol=None):
        """elementwise equality of two arrays (shape included)"""
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return self.false()
        return self.all([self.eq(x, y, tol) if tol else self.eq(x, y) for x, y in zip(a.ravel(), b.ravel())])

    def implies(self, a, b):
        return self.any([self.not_(a), b])

    def perm(self, name, n):
        """an arbitrary permutation of range(n)"""
        left = list(range(n))
        out = []
        while left:
            out.append(left.pop(self.choice(name, len(left)) if len(left) > 1 else 0))
        return out

    def patch(self, obj, name, value):
        """replace the module-level function `name` in every module the class of obj is made of, for this run"""
        spaces = []
        for c in type(obj).__mro__:
            for f in list(vars(c).values()):
                g = getattr(getattr(f, '__func__', f), '__globals__', None)
                if g is not None and name in g and not any(g is q for q in spaces):
                    spaces.append(g)
        u = self.lop.utilities
        if hasattr(u, name):
            self.restore.append((u, name, getattr(u, name)))
            setattr(u, name, value)
        for g in spaces:
            self.restore.append((_Space(g), name, g[name]))
            g[name] = value

    def swap(self, obj, name, value):
        """replace an attribute for this run"""
        self.restore.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def expect_raises(self, f, *exc):
        try:
            f()
        except exc:
            return True
        return False


class SymCtx(Base):
    mode = 'sym'

    def __init__(self, case, deadline, prefix, shared):
        Base.__init__(self)
        self.case = case
        self.deadline = deadline
        self.prefix = prefix          # decisions to replay
        self.trace = []               # decisions taken
        self.path = []                # path condition (bool nodes)
        self.known = {}               # node -> bool
        self.vars = {}                # name -> (node, lo, hi)
        self.choices = {}
        self.nosplit = set()
        self.shared = shared
        self.solver = z3.Solver()
        self.solver.set('timeout', int(case.opts.get('branch_timeout', 3.0) * 1000))
        self.axdone = set()
        self.model = None
        self.nchecks = 0
        self.obs = []
        self.rnd = _pyrandom.Random(1)

    # ---------------------------------------------------------- inputs
    def new_array(self, shape):
        from .shim import SArr
        return np.empty(shape, dtype=object).view(SArr)

    def array(self, l, dtype=None):
        from .shim import sarr
        return sarr(l)

    def real(self, name, lo=None, hi=None, strict=False):
        nm = self.fresh(name)
        n = X.var(nm)
        self.vars[nm] = (n, lo, hi)
        if lo is not None:
            e = X.sub2(X.from_float(lo), n)
            self.assert_(X.lt0(e) if strict else X.le0(e))
            if lo > 0 or (lo == 0 and strict):
                Z.POSVARS.add(n)
        if hi is not None:
            e = X.sub2(n, X.from_float(hi))
            self.assert_(X.lt0(e) if strict else X.le0(e))
        return Sym(n)

    def choice(self, name, n):
        """an arbitrary element of range(n): one fork per value"""
        nm = self.fresh('ch:' + name)
        if n <= 0:
            raise X.Unsupported('empty choice ' + name)
        pos = len(self.trace)
        if pos < len(self.prefix):
            k = self.prefix[pos]
        else:
            k = 0
            for j in range(1, n):
                self.shared.push(self.trace + [j])
        TICK[0] = time.time()
        self.trace.append(k)
        self.choices[nm] = k
        self.shared.transitions += 1
        return k

    def boolean(self, name):
        return bool(self.choice(name, 2))

    # ------------------------------------------------------- path state
    def assert_(self, b):
        TICK[0] = time.time()
        if b is X.TRUE:
            return
        if b is X.FALSE:
            raise PathEnd()
        if b in self.known:
            if self.known[b]:
                return
            raise PathEnd()
        self.known[b] = True
        self.known[X.bnot(b)] = False
        self.path.append(b)
        ax, atoms = Z.base_axioms([b])
        for a in ax:
            i = a.get_id()
            if i not in self.axdone:
                self.axdone.add(i)
                self.solver.add(a)
        self.solver.add(Z.z(b))
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(Z.z(b), model_completion=True)):
                    self.model = None
                else:
                    for a in ax:
                        if not z3.is_true(self.model.eval(a, model_completion=True)):
                            self.model = None
                            break
            except z3.Z3Exception:
                self.model = None

    def assume(self, c):
        b = bnode(c)
        self.assert_(b)
        if len(self.trace) >= len(self.prefix):
            r = self.sat()
            if r == 'unsat':
                raise PathEnd()

    def sat(self, extra=None):
        t0 = time.time()
        Z.STATS['queries'] += 1
        if extra is None and self.model is not None:
            return 'sat'
        if extra is not None:
            self.solver.push()
            for a in Z.base_axioms([extra])[0]:
                self.solver.add(a)
            self.solver.add(Z.z(extra))
        try:
            r = str(self.solver.check())
        except z3.Z3Exception:
            r = 'unknown'
        m = None
        if r == 'sat':
            m = self.solver.model()
        if extra is not None:
            self.solver.pop()
        Z.STATS['time'] += time.time() - t0
        Z.STATS[r] = Z.STATS.get(r, 0) + 1
        if m is not None:
            self.lastmodel = m
            if extra is None:
                self.model = m
        return r

    def branch(self, b):
        """truth value of a symbolic condition on this path (forks)"""
        if b is X.TRUE:
            return True
        if b is X.FALSE:
            return False
        k = self.known.get(b)
        if k is not None:
            return k
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
            self.assert_(b if d else X.bnot(b))
            return bool(d)
        if time.time() > self.deadline:
            raise BudgetExceeded()
        if self.model is None:
            r = self.sat()
            if r == 'unsat':
                raise PathEnd()
        first = None
        nb = X.bnot(b)
        if self.model is not None:
            try:
                first = z3.is_true(self.model.eval(Z.z(b), model_completion=True))
            except z3.Z3Exception:
                first = None
        if first is None:
            rt = self.sat(b)
            mt = self.lastmodel if rt == 'sat' else None
            rf = self.sat(nb)
            mf = self.lastmodel if rf == 'sat' else None
        elif first:
            # the model may violate axioms of atoms that are new in b: confirm
            rt, mt = 'sat', self.model
            rf = self.sat(nb)
            mf = self.lastmodel if rf == 'sat' else None
        else:
            rf, mf = 'sat', self.model
            rt = self.sat(b)
            mt = self.lastmodel if rt == 'sat' else None
        self.shared.transitions += 1
        if rt == 'unsat' and rf == 'unsat':
            raise PathEnd()
        if rt == 'unsat':
            d, m = False, mf
        elif rf == 'unsat':
            d, m = True, mt
        else:
            d = first if first is not None else True
            m = mt if d else mf
            self.shared.push(self.trace + [not d])
        self.trace.append(d)
        self.model = m
        self.assert_(b if d else nb)
        return d

    # ------------------------------------------------------- conditions
    def eq(self, a, b, tol=None):
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return wrapb(X.TRUE if bool(a) == bool(b) else X.FALSE)
        if _nan(a) or _nan(b):
            return wrapb(X.FALSE)
        fa, fb = _inf(a), _inf(b)
        if fa or fb:
            return wrapb(X.TRUE if fa == fb else X.FALSE)
        return wrapb(X.eq0(X.sub2(node(a), node(b))))

    def ge(self, a, b, tol=None):
        if _nan(a) or _nan(b):
            return wrapb(X.FALSE)
        fa, fb = _inf(a), _inf(b)
        if fa or fb:
            return wrapb(X.TRUE if (fa or 0) >= (fb or 0) else X.FALSE)
        return wrapb(X.le0(X.sub2(node(b), node(a))))

    def gt(self, a, b, tol=None):
        if _nan(a) or _nan(b):
            return wrapb(X.FALSE)
        return self.not_(self.ge(b, a))

    def not_(self, a):
        return wrapb(X.bnot(bnode(a)))

    def all(self, l):
        return wrapb(X.band([bnode(a) for a in l]))

    def any(self, l):
        return wrapb(X.bor([bnode(a) for a in l]))

    def true(self):
        return wrapb(X.TRUE)

    def false(self):
        return wrapb(X.FALSE)

    def fn(self, name, *args):
        return Sym(X.fun(name, *[node(a) for a in args]))

    def ite(self, c, a, b):
        c = bnode(c)
        k = self.known.get(c)
        if k is not None:
            return Sym(node(a if k else b))
        if c.op == 'not' and c.args in self.known:
            return Sym(node(b if self.known[c.args] else a))
        return Sym(X.ite(c, node(a), node(b)))

    def gradient(self, f, xs):
        """[d f(xs)/d x] for scalar-valued f at the symbolic point xs"""
        y = f(xs)
        return [Sym(X.diff(node(y), node(x))) for x in xs]

    def is_nan(self, a):
        return _nan(a)

    def const(self, p, q=1):
        return Sym(X.const(Fraction(p, q)))

    # ------------------------------------------------------------ checks
    def env(self, m):
        e = {}
        for nm, (n, lo, hi) in self.vars.items():
            v = Z.model_value(m, Z.z(n))
            if v is None:
                v = Fraction(0)
            e[nm] = v
        return e

    def check(self, cond, label):
        self.nchecks += 1
        self.shared.checks += 1
        b = bnode(cond)
        self._decide(b, label)
        TICK[0] = time.time()

    def _decide(self, b, label):
        if b.op == 'and':
            for c in b.args:
                self._decide(c, label)
            TICK[0] = time.time()
            return
        its = [x for x in X.postorder([b]) if x.op == 'ite']
        if its:
            b = self._resolve(b)
            c = self._open(b)
            if c is not None:
                return self._split(b, c, label)
        if time.time() > self.deadline:
            raise BudgetExceeded()
        self.shared.obligations += 1
        TICK[0] = time.time() + 600
        nb = X.bnot(b)
        if nb is X.FALSE or self.known.get(b) is True:
            self.shared.trivial += 1
            self.shared.discharged += 1
            return
        if b in self.shared.proved:
            self.shared.discharged += 1
            return
        if b.op == 'not' and b.args.op == '<' and Z.surely_nonneg(b.args.args) or \
                b.op == 'not' and b.args.op == '<=' and Z.surely_pos(b.args.args):
            # a product / sum of terms of known sign
            self.shared.trivial += 1
            self.shared.discharged += 1
            return
        if nb is not X.TRUE:
            if b.op == '=':
                Z.congruence([b])
                if Z.poly_zero(b.args):
                    self.shared.proved.add(b)
                    self.shared.discharged += 1
                    return
            if b.op == '=' and self._by_logs(b.args):
                self.shared.proved.add(b)
                self.shared.discharged += 1
                return
            if self._by_equalities(nb):
                self.shared.discharged += 1
                return
            to = self.case.opts.get('timeout', 20.0)
            if any(x.op == 'f' for x in X.postorder([nb])):
                Z.congruence([nb] + self.path)
            # slice: path constraints connected to the goal
            for stage in ('slice', 'full', 'mono', 'nlsat', 'cvc5'):
                ps = self._slice(nb) if stage == 'slice' else self.path
                if stage == 'full' and len(ps) == len(self._slice(nb)):
                    continue
                nodes = ps + [nb]
                ax, atoms = Z.base_axioms(nodes)
                if stage in ('mono', 'nlsat', 'cvc5'):
                    ax = ax + Z.pair_axioms(atoms)
                q = [Z.z(p) for p in ps] + [Z.z(nb)] + ax
                if stage == 'cvc5':
                    r, m = Z.run_cvc5(q, to), None
                elif stage == 'nlsat':
                    r, m = Z.run(q, timeout=to, tactic='qfnra-nlsat')
                else:
                    r, m = Z.run(q, timeout=to if stage != 'slice' else min(to, 8.0))
                if r == 'unsat':
                    self.shared.discharged += 1
                    return
                if r == 'sat' and m is not None and stage != 'slice' or \
                        (r == 'sat' and m is not None and len(ps) == len(self.path)):
                    if self._candidate(self.env(m), nb, label):
                        return
                if r == 'sat' and not [a for a in atoms if a not in Z._alias]:
                    if stage != 'slice' or len(ps) == len(self.path):
                        # no abstraction involved: margin variants, then numeric search
                        break
            if self._search(nb, label):
                return
            self.shared.inconclusive.append((label, X.show(b, 9)[:900], self._brief()))
            return
        # constant false
        r = self.sat()
        if r == 'unsat':
            self.shared.discharged += 1
            raise PathEnd()
        env = self.env(self.model) if self.model is not None else {k: Fraction(1, 2) for k in self.vars}
        if self._candidate(env, nb, label):
            return
        if self._search(nb, label):
            return
        self.shared.inconclusive.append((label, 'false', self._brief()))

    def _resolve(self, b):
        """conditional terms whose condition this path has settled"""
        mp = {}
        for x in X.postorder([b]):
            if x.op == 'ite':
                c = x.args[0]
                k = self.known.get(c)
                if k is None and c.op == 'not':
                    k = self.known.get(c.args)
                    k = None if k is None else not k
                if k is not None:
                    mp[c] = X.TRUE if k else X.FALSE
        return X.subst(b, mp) if mp else b

    def _open(self, b):
        """an unsettled condition of a conditional term next to function atoms"""
        po = X.postorder([b])
        if not any(x.op == 'f' for x in po):
            return None
        for x in po:
            if x.op == 'ite' and x.args[0] not in self.nosplit:
                return x.args[0]
        return None

    def _split(self, b, c, label):
        """decide b separately where c holds and where it does not"""
        for lit in (c, X.bnot(c)):
            model, n = self.model, len(self.path)
            if self.sat(lit) == 'unsat':
                continue
            saved = dict(self.known)
            self.solver.push()
            for a in Z.base_axioms([lit])[0]:
                self.solver.add(a)
            self.solver.add(Z.z(lit))
            self.path.append(lit)
            self.known[lit] = True
            self.known[X.bnot(lit)] = False
            self.nosplit.add(c)
            self.model = None
            try:
                self._decide(self._resolve(b), label)
            except PathEnd:
                pass
            finally:
                self.nosplit.discard(c)
                self.solver.pop()
                del self.path[n:]
                self.known = saved
                self.model = model

    def _by_logs(self, e):
        """sum of c_i log(a_i) vanishes when the product of a_i^c_i is one"""
        if e.op != '+':
            return False
        logs = [(t, c) for t, c in e.args[1] if t.op == 'f' and t.args[0] == 'log']
        if not logs:
            return False
        rest = e
        for t, c in logs:
            rest = X.sub2(rest, X._scale(t, c))
        if rest.op != 'c' or rest.args != 0:
            Z.congruence([rest])
            if not Z.poly_zero(rest):
                return False
        den = 1
        for t, c in logs:
            den = den * c.denominator // math.gcd(den, c.denominator)
        pos = neg = X.ONE
        for t, c in logs:
            k = int(c * den)
            if abs(k) > 6:
                return False
            if k > 0:
                pos = X.mul2(pos, X.powi(t.args[1], k))
            else:
                neg = X.mul2(neg, X.powi(t.args[1], -k))
        d = X.sub2(pos, neg)
        Z.congruence([d])
        return Z.poly_zero(d)

    def _by_equalities(self, nb):
        """discharge after substituting the linear equalities the path implies"""
        eqs = []
        for p in self.path:
            if p.op == '=':
                eqs.append(p.args)
            elif p.op == '<=' and self.known.get(X.mk('<', p.args)) is False:
                eqs.append(p.args)
        if not eqs:
            return False
        done = False
        for i in range(len(eqs)):
            e = eqs[i]
            best = None
            for v in X.postorder([e]):
                if v.op == 'v':
                    d = X.diff(e, v)
                    if d.op == 'c' and d.args != 0:
                        best = (v, d.args)
                        break
            if best is None:
                continue
            v, k = best
            rest = X.subst(e, {v: X.ZERO})
            if v in X.postorder([rest]):
                continue
            m = {v: X._scale(rest, -1 / k)}
            nb = X.subst(nb, m)
            eqs[i + 1:] = [X.subst(q, m) for q in eqs[i + 1:]]
            done = True
        if not done:
            return False
        if nb is X.FALSE:
            return True
        inner = nb.args if nb.op == 'not' else None
        if inner is not None and inner.op == '=':
            Z.congruence([inner])
            return Z.poly_zero(inner.args)
        return False

    def _brief(self):
        return {'path': len(self.path), 'choices': dict(self.choices)}

    def _slice(self, nb):
        def vs(n):
            return {x for x in X.postorder([n]) if x.op in ('v', 'f')}
        want = vs(nb)
        rest = [(p, vs(p)) for p in self.path]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for p, s in rest:
                if s & want:
                    want |= s
                    out.append(p)
                    ch = True
                else:
                    nr.append((p, s))
            rest = nr
        return out

    def _numeric_ok(self, env, nb):
        try:
            vals = X.evaluate(self.path + [nb], {k: float(v) for k, v in env.items()})
        except Exception:
            return None
        return all(bool(v) for v in vals)

    def _candidate(self, env, nb, label):
        """replay one assignment on the real code"""
        return self.shared.replay(self, env, label)

    def _search(self, nb, label):
        """the solver says violable (possibly thanks to the abstraction of
        transcendental functions): look for an assignment that the concrete
        semantics confirms, first through solver models with pinned inputs,
        then by evaluating the violated condition at points of the path"""
        rnd = self.rnd
        tried = 0
        nodes = self.path + [nb]
        ax, atoms = Z.base_axioms(nodes)
        q = [Z.z(p) for p in self.path] + [Z.z(nb)] + ax
        # margins for (dis)equalities and strict bounds
        inner = nb.args if nb.op == 'not' else nb
        extra = []
        if inner.op in ('=', '<', '<='):
            nu, den = Z.rat(inner.args)
            if not den:
                zn = Z.z(nu)
                for eps in ('1/10', '1/1000', '1/1000000'):
                    ev = z3.RealVal(eps)
                    extra.append(z3.Or(zn >= ev, zn <= -ev))
        bounds = []
        for nm, (n, lo, hi) in self.vars.items():
            zn = Z.z(n)
            if lo is None:
                bounds.append(zn >= -5)
            if hi is None:
                bounds.append(zn <= 5)
        for ex in extra:
            r, m = Z.run(q + bounds + [ex], timeout=5.0)
            if r == 'sat':
                if self.shared.replay(self, self.env(m), label):
                    return True
        t_end = min(time.time() + self.case.opts.get('search_time', 20.0), self.deadline)
        good = 0
        for it in range(4000):
            if time.time() > t_end:
                break
            env = {}
            for nm, (n, lo, hi) in self.vars.items():
                l = lo if lo is not None else (hi - 4 if hi is not None else -2.0)
                h = hi if hi is not None else l + 4.0
                if h > l + 6:
                    h = l + 6
                env[nm] = Fraction(rnd.randint(1, 99), 100) * Fraction(h - l) + Fraction(l)
            if self._numeric_ok(env, nb):
                good += 1
                if self.shared.replay(self, env, label):
                    return True
                if good > 25:
                    break
        # solver models with some inputs pinned to random points
        for it in range(12):
            if time.time() > t_end + 10:
                break
            pins = []
            for nm, (n, lo, hi) in self.vars.items():
                if rnd.random() < 0.6:
                    l = lo if lo is not None else -2.0
                    h = hi if hi is not None else l + 4.0
                    pins.append(Z.z(n) == Z.rv(Fraction(rnd.randint(1, 19), 20) * Fraction(h - l) + Fraction(l)))
            r, m = Z.run(q + pins, timeout=3.0)
            if r == 'sat':
                if self.shared.replay(self, self.env(m), label):
                    return True
        return False

    def observe(self, name, v):
        self.obs.append((name, v))


def _nan(a):
    return isinstance(a, (float, np.floating)) and a != a


def _inf(a):
    if isinstance(a, Sym):
        return None
    try:
        f = float(a)
    except (TypeError, ValueError):
        return None
    if math.isinf(f):
        return f
    return None


class ConcCtx(Base):
    mode = 'conc'

    def __init__(self, vals, choices, tol=1e-6):
        Base.__init__(self)
        self.vals = vals
        self.chs = choices
        self.tol = tol
        self.failed = []
        self.nchecks = 0
        self.obs = []

    def new_array(self, shape):
        return np.zeros(shape)

    def array(self, l, dtype=None):
        return np.array(l, dtype=dtype) if dtype else np.array(l)

    def real(self, name, lo=None, hi=None, strict=False):
        nm = self.fresh(name)
        if nm in self.vals:
            v = float(self.vals[nm])
        else:
            l = lo if lo is not None else -1.0
            h = hi if hi is not None else l + 2.0
            v = l + (h - l) * 0.5
        return np.float64(v)

    def choice(self, name, n):
        nm = self.fresh('ch:' + name)
        return min(int(self.chs.get(nm, 0)), n - 1)

    def boolean(self, name):
        return bool(self.choice(name, 2))

    def assume(self, c):
        if not bool(c):
            raise PathEnd()

    def _f(self, a):
        a = np.asarray(a)
        return a.item() if a.size == 1 else a

    def eq(self, a, b, tol=None):
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        a, b = float(self._f(a)), float(self._f(b))
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return a == b
        t = self.tol if tol is None else tol
        return abs(a - b) <= t * max(1.0, abs(a), abs(b)) if t else a == b

    def ge(self, a, b, tol=None):
        a, b = float(self._f(a)), float(self._f(b))
        t = self.tol if tol is None else tol
        return a >= b or (not math.isinf(a) and not math.isinf(b) and a >= b - t * max(1.0, abs(a), abs(b)))

    def gt(self, a, b, tol=None):
        # a strict claim: tolerate rounding towards equality unless told not to
        if tol == 0:
            return float(self._f(a)) > float(self._f(b))
        return self.ge(a, b, tol)

    def not_(self, a):
        return not a

    def all(self, l):
        return all(bool(x) for x in l)

    def any(self, l):
        return any(bool(x) for x in l)

    def true(self):
        return True

    def false(self):
        return False

    def fn(self, name, *args):
        f = X._numfun(name)
        if f is None:
            raise X.Unsupported('fn ' + name)
        return f(*[float(a) for a in args])

    def ite(self, c, a, b):
        return a if c else b

    def const(self, p, q=1):
        return p / q

    def gradient(self, f, xs):
        xs = [float(x) for x in xs]
        out = []
        for i in range(len(xs)):
            def at(d):
                y = list(xs)
                y[i] += d
                return float(self._f(f(y)))
            h = 1e-3 * max(1.0, abs(xs[i]))
            # five-point stencil, two widths: the difference bounds the error
            def st(h):
                return (at(-2 * h) - 8 * at(-h) + 8 * at(h) - at(2 * h)) / (12 * h)
            out.append(st(h))
        return out

    def is_nan(self, a):
        return bool(np.any(np.isnan(np.asarray(a, dtype=float))))

    def check(self, cond, label):
        self.nchecks += 1
        if not bool(cond):
            self.failed.append(label)

    def observe(self, name, v):
        self.obs.append((name, v))
