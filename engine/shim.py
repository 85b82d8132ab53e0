"""numpy / scipy / random / math as seen by the program under check.

Only modules of the package `lop` are loaded with these replacements (through a
private __import__ in their builtins); everything else keeps the real ones.
Arrays are object-dtype ndarrays of the subclass SArr, so that they may hold
symbolic values; operations not overridden here are NumPy's own.
"""
import builtins
import importlib.util
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np
import numpy.linalg as _rl

from . import expr as X
from .sym import (Sym, SymBool, node, bnode, simp, wrapb, _pow, _engine)
from .expr import Unsupported

# ------------------------------------------------------------------ SArr


def _hassym(x):
    return isinstance(x, (Sym, SymBool))


def _base(x):
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, SFloat):
        return float(x)
    if isinstance(x, list):
        return [_base(v) if not isinstance(v, (Sym, SymBool)) else v for v in x]
    if isinstance(x, tuple):
        return tuple(_base(v) if not isinstance(v, (Sym, SymBool)) else v for v in x)
    return x


def _fin(r):
    """wrap a NumPy result"""
    if isinstance(r, np.ndarray):
        if r.dtype.kind == 'f':
            r = r.astype(object)
        if r.ndim == 0 and r.dtype == object:
            return r[()]
        return r.view(SArr)
    if isinstance(r, tuple):
        if hasattr(r, '_fields'):
            return r
        return tuple(_fin(x) for x in r)
    if isinstance(r, list):
        return [_fin(x) for x in r]
    return r


def elementwise(f, a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    fl = out.reshape(-1) if a.ndim else None
    if a.ndim == 0:
        return f(a[()])
    src = a.reshape(-1)
    for i in range(src.size):
        fl[i] = f(src[i])
    return out.view(SArr)


def _tobool(a):
    """object array of truth values -> bool array"""
    if isinstance(a, np.ndarray):
        return np.asarray(a, dtype=object).astype(bool).view(SArr) if a.ndim else bool(a[()])
    return bool(a)


def _bmap(f, *args):
    args = [_base(a) for a in args]
    args = [np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in args]
    br = np.broadcast(*args) if len(args) > 1 else None
    shape = br.shape if br is not None else args[0].shape
    if shape == ():
        return f(*[a[()] for a in args])
    out = np.empty(shape, dtype=object)
    bs = np.broadcast_arrays(*args) if len(args) > 1 else args
    for ix in np.ndindex(*shape):
        out[ix] = f(*[b[ix] for b in bs])
    return out.view(SArr)


# ------------------------------------------------- scalar mathematics
def _u1(name, pyf):
    def f(x):
        if isinstance(x, Sym):
            return Sym(X.fun(name, x.n))
        if isinstance(x, (SymBool, bool, np.bool_)):
            x = int(x)
        return pyf(x)
    return f


def _pysafe(f, dom=math.nan):
    def g(x):
        try:
            return f(x)
        except ValueError:
            return dom
        except OverflowError:
            return math.inf
    return g


def _c1(name, pyf):
    """a function whose constant arguments stay exact terms unless special"""
    def f(x):
        if isinstance(x, Sym):
            return Sym(X.fun(name, x.n))
        xf = float(x)
        if not math.isfinite(xf):
            return pyf(xf)
        n = X.fun(name, X.from_float(xf))
        if n.op == 'c':
            return simp(n)
        return Sym(n)
    return f


def _np1(uf):
    def g(x):
        with np.errstate(all='ignore'):
            return float(uf(float(x)))
    return g


def s_exp(x):
    if isinstance(x, Sym):
        e = _engine[0]
        lim = getattr(e, 'exp_underflow', None) if e is not None else None
        if lim is not None:
            if e.branch(X.lt0(X.add2(x.n, X.const(Fraction(lim))))):
                return 0.0
            if e.branch(X.lt0(X.sub2(X.const(Fraction(709)), x.n))):
                return math.inf
        return Sym(X.fun('exp', x.n))
    xf = float(x)
    if xf == 0.0:
        return 1.0
    if not math.isfinite(xf):
        return _np1(np.exp)(xf)
    return Sym(X.fun('exp', X.from_float(xf)))


s_log = _c1('log', _np1(np.log))


def s_log_(x):
    if not isinstance(x, Sym) and float(x) <= 0:
        return _np1(np.log)(x)
    return s_log(x)


def s_sqrt(x):
    if isinstance(x, Sym):
        return Sym(X.sqrt(x.n))
    xf = float(x)
    if not math.isfinite(xf) or xf < 0:
        return _np1(np.sqrt)(xf)
    return math.sqrt(xf)


s_sin = _u1('sin', math.sin)
s_cos = _u1('cos', math.cos)
s_tanh = _u1('tanh', math.tanh)
s_arctan = _u1('arctan', math.atan)
s_floor = _u1('floor', lambda x: float(math.floor(x)))
s_erf = _c1('erf', math.erf)


def s_ndtr(x):
    if not isinstance(x, Sym) and math.isinf(float(x)):
        return 1.0 if x > 0 else 0.0
    n = X.fun('ndtr', node(x))
    return simp(n)


def s_log_ndtr(x):
    return s_log_(s_ndtr(x))


def s_npdf(x):
    if not isinstance(x, Sym) and math.isinf(float(x)):
        return 0.0
    return Sym(X.npdf(node(x)))


def s_nlogpdf(x):
    n = node(x)
    half = Fraction(-1, 2)
    return Sym(X.sub2(X._scale(X.powi(n, 2), half),
                      X._scale(X.fun('log', X.mul2(X.const(Fraction(2)), X.PI)), Fraction(1, 2))))


def s_erf_(x):
    # erf(x) = 2 Phi(x sqrt 2) - 1
    if not isinstance(x, Sym) and math.isinf(float(x)):
        return 1.0 if x > 0 else -1.0
    p = X.fun('ndtr', X.mul2(node(x), X.sqrt(X.const(Fraction(2)))))
    return simp(X.sub2(X._scale(p, Fraction(2)), X.ONE))


def s_gammaln(x):
    return simp(X.fun('lgamma', node(x)))


def s_gamma(x):
    if not isinstance(x, Sym):
        f = float(x)
        if f.is_integer() and 0 < f < 15:
            return float(math.factorial(int(f) - 1))
    return Sym(X.fun('exp', X.fun('lgamma', node(x))))


def s_polygamma(n, x):
    return Sym(X.fun('polygamma', node(n), node(x)))


def s_digamma(x):
    return s_polygamma(0, x)


def s_betaln(a, b):
    a, b = node(a), node(b)
    return Sym(X.sub2(X.add2(X.fun('lgamma', a), X.fun('lgamma', b)), X.fun('lgamma', X.add2(a, b))))


def s_beta(a, b):
    return s_exp(s_betaln(a, b))


def s_square(x):
    return x * x


def s_recip(x):
    return 1.0 / x if isinstance(x, Sym) else (1.0 / x if x != 0 else math.copysign(math.inf, x))


def s_sign(x):
    if isinstance(x, Sym):
        if x > 0:
            return 1.0
        return -1.0 if x < 0 else 0.0
    return float(np.sign(x))


def s_max(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a if (a >= b or a != a) else b
    if isinstance(a, float) and a != a:
        return a
    return a if a >= b else b


def s_min(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a if (a <= b or a != a) else b
    if isinstance(a, float) and a != a:
        return a
    return a if a <= b else b


def s_div(a, b):
    if not isinstance(b, (Sym, SymBool)) and float(b) == 0.0:
        if isinstance(a, (Sym, SymBool)):
            a = node(a)
            e = _engine[0]
            if e.branch(X.eq0(a)):
                return math.nan
            return -math.inf if e.branch(X.lt0(a)) else math.inf
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))
    if isinstance(a, (bool, np.bool_)):
        a = int(a)
    return a / b


def s_power(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    with np.errstate(all='ignore'):
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return a ** b
        return float(np.float64(a) ** np.float64(b))


def s_isclose(a, b, rtol=1e-05, atol=1e-08):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if any(isinstance(q, (float, np.floating)) and not math.isfinite(q) for q in (a, b)):
            return False
        return bool(abs(a - b) <= atol + rtol * abs(b))
    return bool(np.isclose(float(a), float(b), rtol, atol))


def s_log1p(x):
    return s_log_(1 + x) if isinstance(x, Sym) else s_log_(1.0 + float(x))


def s_expm1(x):
    return s_exp(x) - 1


def s_abs(x):
    return abs(x)


def _nanf(f):
    def g(x):
        if isinstance(x, (Sym, SymBool)):
            return False
        return bool(f(float(x)))
    return g


def s_isfinite(x):
    return True if isinstance(x, (Sym, SymBool)) else math.isfinite(float(x))


def s_logaddexp(a, b):
    return s_log_(s_exp(a) + s_exp(b))


UNARY = {
    'exp': s_exp, 'log': s_log_, 'sqrt': s_sqrt, 'sin': s_sin, 'cos': s_cos, 'tanh': s_tanh,
    'arctan': s_arctan, 'floor': s_floor, 'square': s_square, 'reciprocal': s_recip, 'sign': s_sign,
    'log1p': s_log1p, 'expm1': s_expm1, 'absolute': s_abs, 'fabs': s_abs,
    'log2': lambda x: s_log_(x) / s_log_(2.0), 'log10': lambda x: s_log_(x) / s_log_(10.0),
    'exp2': lambda x: s_exp(x * s_log_(2.0)),
    'sinh': lambda x: (s_exp(x) - s_exp(-x)) / 2, 'cosh': lambda x: (s_exp(x) + s_exp(-x)) / 2,
    'tan': lambda x: s_sin(x) / s_cos(x),
    'ceil': lambda x: -s_floor(-x),
    'deg2rad': lambda x: x * math.pi / 180, 'radians': lambda x: x * math.pi / 180,
}
PRED1 = {'isnan': _nanf(math.isnan), 'isinf': _nanf(math.isinf), 'isfinite': s_isfinite,
         'logical_not': lambda x: not bool(x)}
BINARY = {'maximum': s_max, 'minimum': s_min, 'fmax': s_max, 'fmin': s_min, 'power': s_power,
          'float_power': s_power, 'true_divide': s_div, 'divide': s_div, 'logaddexp': s_logaddexp,
          'floor_divide': lambda a, b: a // b, 'hypot': lambda a, b: s_sqrt(a * a + b * b)}
PRED2 = {'logical_and': lambda a, b: bool(a) and bool(b), 'logical_or': lambda a, b: bool(a) or bool(b),
         'logical_xor': lambda a, b: bool(a) != bool(b)}
CMP = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'}


def _anyobj(ins):
    for i in ins:
        if isinstance(i, (Sym, SymBool)):
            return True
        if isinstance(i, np.ndarray) and i.dtype == object:
            return True
        if isinstance(i, (list, tuple)) and _anyobj(i):
            return True
    return False


def ufunc_call(uf, method, ins, kw):
    nm = uf.__name__
    out = kw.pop('out', None)
    ins = [_base(i) for i in ins]
    obj = _anyobj(ins)
    if out is not None and isinstance(out, tuple):
        out = out[0]
    where = kw.pop('where', True)
    kw.pop('casting', None)
    kw.pop('dtype', None) if obj else None
    if where is not True:
        if method != '__call__':
            raise Unsupported('ufunc where= in ' + method)
        full = ufunc_call(uf, method, ins, dict(kw))
        w = np.broadcast_to(np.asarray(_base(where), dtype=bool), np.shape(full))
        if out is None:
            out = np.zeros(np.shape(full), dtype=object).view(SArr)
        ob = _base(out)
        fb = _base(full)
        for ix in np.ndindex(*np.shape(full)):
            if w[ix]:
                ob[ix] = fb[ix]
        return out
    if method == '__call__' and obj:
        if nm in UNARY:
            r = _bmap(UNARY[nm], ins[0])
        elif nm in PRED1:
            r = _tobool(_bmap(PRED1[nm], ins[0]))
        elif nm in BINARY:
            r = _bmap(BINARY[nm], *ins)
        elif nm in PRED2:
            r = _tobool(_bmap(PRED2[nm], *ins))
        elif nm == 'matmul':
            a, b = [np.asarray(i) for i in ins]
            if a.ndim == 0 or b.ndim == 0:
                raise ValueError('matmul: Input operand does not have enough dimensions')
            r = uf(a, b)
        elif nm in ('conjugate',):
            r = ins[0]
        elif nm in ('clip', 'core_clip'):
            r = _bmap(lambda x, lo, hi: s_min(s_max(x, lo), hi), *ins)
        else:
            r = uf(*ins, **kw)
    elif obj and method in ('reduce', 'accumulate') and nm in ('maximum', 'minimum', 'fmax', 'fmin', 'logical_and',
                                                               'logical_or', 'true_divide'):
        a = np.asarray(ins[0])
        axis = ins[1] if len(ins) > 1 else kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        f = BINARY.get(nm) or PRED2[nm]
        if method == 'accumulate':
            if a.ndim != 1:
                raise Unsupported('accumulate of ' + nm)
            l = list(a[:1])
            for x in a[1:]:
                l.append(f(l[-1], x))
            return _fin(sarr(l))
        r = reduce_axis(f, a, axis, keep, init=kw.get('initial', None),
                        empty=True if nm == 'logical_and' else (False if nm == 'logical_or' else None))
        if nm.startswith('logical'):
            r = _tobool(r)
    else:
        r = getattr(uf, method)(*ins, **kw)
    r = _fin(r)
    if out is not None:
        ob = _base(out)
        if isinstance(ob, np.ndarray):
            ob[...] = _base(r) if isinstance(r, np.ndarray) else r
            return out
    return r


def reduce_axis(f, a, axis, keep=False, init=None, empty=None):
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        if not -a.ndim <= axis < a.ndim:
            raise np.AxisError(axis, a.ndim)
        axes = (axis % a.ndim,)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        l = list(b[ix])
        if not l:
            if init is not None:
                out[ix] = init
                continue
            if empty is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            out[ix] = empty
            continue
        acc = l[0] if init is None else f(init, l[0])
        if empty is not None:
            acc = bool(acc)
        for v in l[1:]:
            acc = f(acc, v)
        out[ix] = acc
    if keep:
        sh = [1 if i in axes else a.shape[i] for i in range(a.ndim)]
        out = out.reshape(sh)
    if out.ndim == 0:
        return out[()]
    return out.view(SArr)


class SArr(np.ndarray):
    __array_priority__ = 20.0

    def __array_ufunc__(self, uf, method, *ins, **kw):
        return ufunc_call(uf, method, ins, kw)

    def __array_function__(self, func, types_, args, kwargs):
        nm = func.__name__
        o = FUNCS.get(nm)
        mod = getattr(func, '__module__', '')
        if mod and 'linalg' in mod:
            lo = getattr(linalg, nm, None)
            if lo is not None:
                return lo(*args, **kwargs)
        if o is not None:
            return o(*args, **kwargs)
        args = _deep(args)
        kwargs = {k: _deep1(v) for k, v in kwargs.items()}
        if 'out' in kwargs and kwargs['out'] is None:
            del kwargs['out']
        return _fin(func(*args, **kwargs))

    def __getitem__(self, k):
        k = _idx(k)
        r = np.ndarray.__getitem__(self, k)
        if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object:
            return r[()] if type(r) is np.ndarray else np.ndarray.item(r)
        return r

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (self[i] for i in range(self.shape[0]))

    def __setitem__(self, k, v):
        k = _idx(k)
        if isinstance(v, (list, tuple)):
            v = _base(v)
        elif isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype == object:
            v = v.view(np.ndarray)[()]
        if self.dtype.kind in 'iub' and self.dtype != object:
            if isinstance(v, np.ndarray) and v.dtype == object:
                v = _cast(v, self.dtype)
        np.ndarray.__setitem__(self, k, v)

    def astype(self, dtype, *a, **kw):
        return _cast(self, dtype)

    def _inplace(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim == 0 and o.dtype == object:
            o = o.view(np.ndarray)[()]
        if isinstance(o, Sym):
            if self.dtype != object:
                raise TypeError('Cannot cast ufunc output from float64 to ' + str(self.dtype))
            r = f(self, o)
            np.ndarray.__setitem__(self, ..., r)
            return self
        return NotImplemented

    def __iadd__(self, o):
        r = self._inplace(o, lambda a, b: a + b)
        return np.ndarray.__iadd__(self, o) if r is NotImplemented else r

    def __isub__(self, o):
        r = self._inplace(o, lambda a, b: a - b)
        return np.ndarray.__isub__(self, o) if r is NotImplemented else r

    def __imul__(self, o):
        r = self._inplace(o, lambda a, b: a * b)
        return np.ndarray.__imul__(self, o) if r is NotImplemented else r

    def __itruediv__(self, o):
        r = self._inplace(o, lambda a, b: a / b)
        return np.ndarray.__itruediv__(self, o) if r is NotImplemented else r

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return f_std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return f_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_mean(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return f_max(self, axis=axis, keepdims=keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return f_min(self, axis=axis, keepdims=keepdims, **k)

    def ptp(self, axis=None, **k):
        return f_max(self, axis=axis) - f_min(self, axis=axis)

    def argmax(self, axis=None, out=None, **k):
        return f_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return f_argmin(self, axis)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return f_sum(self, axis=axis, keepdims=keepdims, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _fin(np.prod(_base(self), axis=axis, keepdims=keepdims))

    def dot(self, b, out=None):
        return f_dot(self, b)

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return f_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return f_all(self, axis=axis, keepdims=keepdims)

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def sort(self, axis=-1, **k):
        b = _base(self)
        b[...] = np.sort(b, axis=axis)

    def argsort(self, axis=-1, **k):
        return _fin(np.argsort(_base(self), axis=axis, kind='stable'))

    def cumsum(self, axis=None, **k):
        return _fin(np.cumsum(_base(self), axis=axis))

    def trace(self, *a, **k):
        return _fin(np.trace(_base(self), *a, **k))

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def nonzero(self):
        return f_nonzero(self)

    def __float__(self):
        raise Unsupported('array -> float')

    def __deepcopy__(self, memo):
        return self.copy()


def _toidx(v):
    if isinstance(v, SymBool):
        return bool(v)
    return v


def _idx(k):
    if isinstance(k, tuple):
        return tuple(_idx(x) for x in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SArr):
        k = k.view(np.ndarray)
    if isinstance(k, np.ndarray) and k.dtype == object and k.size:
        fl = k.ravel()
        if all(isinstance(x, (bool, np.bool_, SymBool)) for x in fl):
            return k.astype(bool)
        if all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in fl):
            return k.astype(int)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    return k


def _cast(a, dtype):
    b = np.asarray(_base(a))
    if isinstance(dtype, type) and issubclass(dtype, float) or dtype in (SFloat, SFloat64):
        return (b.astype(object) if b.dtype != object else b.copy()).view(SArr) if b.dtype.kind not in 'iub' \
            else _f(b).view(SArr)
    d = np.dtype(_dt(dtype))
    if d.kind == 'f':
        return _f(b).view(SArr)
    if b.dtype == object:
        if d.kind == 'b':
            return np.array([bool(x) for x in b.ravel()], dtype=bool).reshape(b.shape).view(SArr)
        if d.kind in 'iu':
            return np.array([int(x) for x in b.ravel()], dtype=d).reshape(b.shape).view(SArr)
        if d.kind == 'O':
            return b.copy().view(SArr)
        raise Unsupported('astype %r' % d)
    return _fin(b.astype(d))


def _f(b):
    """int/float/object array as an object array of floats/terms"""
    if b.dtype == object:
        out = b.copy()
        fl = out.reshape(-1)
        for i in range(fl.size):
            v = fl[i]
            if isinstance(v, (int, np.integer, np.bool_)) and not isinstance(v, Sym):
                fl[i] = float(v)
        return out
    return b.astype(float).astype(object)


def _dt(dtype):
    if dtype is SFloat or dtype is SFloat64 or dtype is None:
        return float
    if dtype is SInt:
        return int
    return dtype


def _deep1(v):
    if isinstance(v, SArr):
        return v.view(np.ndarray)
    if isinstance(v, (list, tuple)) and not hasattr(v, '_fields'):
        return type(v)(_deep1(x) for x in v)
    if isinstance(v, Sym):
        return _base(v)
    return v


def _deep(args):
    return tuple(_deep1(a) for a in args)


def sarr(l, dtype=None):
    """np.array for program values"""
    if isinstance(l, np.ndarray):
        b = l.view(np.ndarray).copy()
    elif isinstance(l, (Sym, SymBool)):
        b = np.empty((), dtype=object)
        b[()] = l
    else:
        l = _listify(l)
        if _deephas(l):
            sh = _shape(l)
            b = np.empty(sh, dtype=object)
            _fill(b, l)
        else:
            b = np.array(l)
    if dtype is not None:
        if b.ndim == 0 and b.dtype == object and np.dtype(_dt(dtype)).kind == 'f':
            return b.view(SArr)
        return _cast(b, dtype)
    if b.dtype.kind == 'f':
        b = b.astype(object)
    return b.view(SArr)


def _listify(l):
    if isinstance(l, np.ndarray):
        return l
    if isinstance(l, (list, tuple)):
        return [_listify(x) for x in l]
    if isinstance(l, (range, set, frozenset)) or hasattr(l, '__array__'):
        return l
    return l


def _deephas(l):
    if isinstance(l, (Sym, SymBool)):
        return True
    if isinstance(l, np.ndarray):
        return l.dtype == object
    if isinstance(l, list):
        return any(_deephas(x) for x in l)
    return False


def _shape(l):
    if isinstance(l, np.ndarray):
        return l.shape
    if isinstance(l, list):
        if not l:
            return (0,)
        s = _shape(l[0])
        for x in l[1:]:
            if _shape(x) != s:
                raise ValueError('setting an array element with a sequence. The requested array has an '
                                 'inhomogeneous shape')
        return (len(l),) + s
    return ()


def _fill(b, l):
    if isinstance(l, np.ndarray):
        b[...] = l
        return
    for i, x in enumerate(l):
        if b.ndim == 1:
            b[i] = x[()] if isinstance(x, np.ndarray) else x
        else:
            _fill(b[i], x)


# ------------------------------------------------- overridden functions
def _axis_arr(a):
    return np.asarray(_base(a) if not isinstance(a, (list, tuple)) else _base(sarr(a)))


def _creat(fname):
    rf = getattr(np, fname)

    def f(*a, **k):
        dtype = k.pop('dtype', None)
        a = list(a)
        k.pop('order', None)
        pos = 2 if fname == 'full' else 1
        if dtype is None and len(a) > pos and fname not in ('eye',):
            dtype = a.pop(pos)
        if fname in ('eye',) and len(a) > 3:
            dtype = a.pop(3)
        a = [int(x) if isinstance(x, Sym) and not (fname == 'full' and i == 1) else x for i, x in enumerate(a)]
        if fname == 'full':
            fv = a[1] if len(a) > 1 else k['fill_value']
            if isinstance(fv, (Sym, SymBool)):
                b = np.empty(a[0], dtype=object)
                b.fill(0)
                for ix in np.ndindex(*b.shape):
                    b[ix] = fv
                return b.view(SArr)
            b = rf(*_deep(a), **k)
        else:
            b = rf(*_deep(a), **k)
        if fname == 'empty':
            b = np.zeros(b.shape)      # contents unspecified; reading them before writing is not modelled
        if dtype is None and fname != 'full':
            return b.astype(object).view(SArr)
        if dtype is None:
            return sarr(b)
        return _cast(b, dtype)
    f.__name__ = fname
    return f


def _creat_like(fname):
    def f(a, *rest, dtype=None, shape=None, **k):
        a = np.asarray(_base(a) if not isinstance(a, (list, tuple)) else _base(sarr(a)))
        rest = list(rest)
        val = {'zeros_like': 0, 'ones_like': 1, 'empty_like': 0}.get(fname)
        if fname == 'full_like':
            val = rest.pop(0) if rest else k['fill_value']
        if rest and dtype is None:
            dtype = rest.pop(0)
        sh = a.shape if shape is None else shape
        if dtype is None:
            if a.dtype == object:
                b = np.empty(sh, dtype=object)
                for ix in np.ndindex(*b.shape):
                    b[ix] = float(val) if not isinstance(val, Sym) else val
                return b.view(SArr)
            return np.full(sh, val, dtype=a.dtype).view(SArr)
        b = np.empty(sh, dtype=object)
        for ix in np.ndindex(*b.shape):
            b[ix] = val
        return _cast(b, dtype)
    f.__name__ = fname
    return f


def f_array(o=None, dtype=None, copy=True, ndmin=0, **k):
    if dtype in (object, 'object', 'O') and isinstance(o, (list, tuple)) and not _deephas(_listify(o)):
        return np.array(o, dtype=object).view(SArr)
    r = sarr(o, dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def f_asarray(o, dtype=None, *a, **k):
    if isinstance(o, SArr) and (dtype is None or np.dtype(_dt(dtype)) == o.dtype or
                                (np.dtype(_dt(dtype)).kind == 'f' and o.dtype == object)):
        return o
    return sarr(o, dtype)


def f_arange(*a, **k):
    k.pop('dtype', None) if k.get('dtype', None) is None else None
    a = [float(x) if isinstance(x, Sym) else x for x in a]
    if 'dtype' in k:
        k['dtype'] = _dt(k['dtype'])
    return _fin(np.arange(*a, **k))


def f_linspace(lo, hi, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = int(num)
    div = (n - 1) if endpoint else n
    if _anyobj([lo, hi]) or isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray):
        out = [lo + (hi - lo) * (Fraction(i, div) if isinstance(lo, Sym) or isinstance(hi, Sym) else i / div)
               if div else lo for i in range(n)]
        r = sarr(out)
    else:
        L, H = Fraction(X.from_float(lo).args), Fraction(X.from_float(hi).args)
        r = sarr([float(L + (H - L) * Fraction(i, div)) if div else float(lo) for i in range(n)])
    if retstep:
        return r, ((hi - lo) / div if div else math.nan)
    return r


def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return _tobool(_bmap(lambda p, q: s_isclose(p, q, rtol, atol), a, b))


def f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return bool(np.all(_base(r)))


def f_array_equal(a, b, **k):
    a, b = _axis_arr(a), _axis_arr(b)
    if a.shape != b.shape:
        return False
    return bool(all(bool(p == q) for p, q in zip(a.ravel(), b.ravel())))


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True, **k):
    b = _axis_arr(a)
    if where is not True:
        b = np.where(_base(where), b, 0)
    if b.dtype == object and b.size == 0:
        b = b.astype(float)
    r = np.sum(b, axis=axis, keepdims=bool(keepdims))
    return _fin(r)


def _cnt(b, axis):
    if axis is None:
        return b.size
    if isinstance(axis, tuple):
        return int(np.prod([b.shape[x] for x in axis]))
    return b.shape[axis]


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    b = _axis_arr(a)
    n = _cnt(b, axis)
    if n == 0:
        return math.nan
    s = np.sum(_f(b) if b.dtype.kind in 'bO' else b, axis=axis, keepdims=bool(keepdims))
    if isinstance(s, Sym):
        return s * Sym(X.const(Fraction(1, n)))
    if isinstance(s, np.ndarray):
        if s.dtype == object:
            return elementwise(lambda x: x * Sym(X.const(Fraction(1, n))) if isinstance(x, Sym) else x / n, s)
        return _fin(s / n)
    return s / n


def _isnan1(x):
    return isinstance(x, (float, np.floating)) and x != x


def _nanred(f):
    """reduction that leaves out NaN elements"""
    def g(a, axis=None, **k):
        b = _axis_arr(a)
        if b.dtype.kind not in 'fO' or not any(_isnan1(x) for x in b.ravel()):
            return f(a, axis=axis, **k)
        if axis is None:
            l = [x for x in b.ravel() if not _isnan1(x)]
            return f(sarr(l) if l else np.zeros(0)) if l or f is f_sum else math.nan
        b = np.moveaxis(b, axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for ix in np.ndindex(*out.shape):
            l = [x for x in b[ix] if not _isnan1(x)]
            out[ix] = f(sarr(l)) if l else (0.0 if f is f_sum else math.nan)
        return _fin(out)
    return g


def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    a, w = sarr(a), sarr(weights)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh) + (a * 0)
    return f_sum(a * w, axis=axis) / f_sum(w, axis=axis)


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    b = sarr(a)
    m = f_mean(b, axis=axis, keepdims=True)
    d = b - m
    n = _cnt(np.asarray(_base(b)), axis)
    s = f_sum(d * d, axis=axis, keepdims=keepdims)
    return s / (n - ddof)


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    v = f_var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return _bmap(s_sqrt, v) if isinstance(v, np.ndarray) else s_sqrt(v)


def f_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    b = _axis_arr(a)
    if b.dtype != object:
        return _fin(np.max(b, axis=axis, keepdims=bool(keepdims)))
    return reduce_axis(s_max, b, axis, bool(keepdims), init=initial)


def f_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    b = _axis_arr(a)
    if b.dtype != object:
        return _fin(np.min(b, axis=axis, keepdims=bool(keepdims)))
    return reduce_axis(s_min, b, axis, bool(keepdims), init=initial)


def _arg(cmp):
    def one(l):
        if not len(l):
            raise ValueError('attempt to get argmax of an empty sequence')
        best = 0
        for i in range(1, len(l)):
            if bool(cmp(l[i], l[best])):
                best = i
        return best

    def f(a, axis=None, out=None, **k):
        b = _axis_arr(a)
        if axis is None:
            return one(b.ravel())
        b = np.moveaxis(b, axis, -1)
        out_ = np.zeros(b.shape[:-1], dtype=int)
        for ix in np.ndindex(*b.shape[:-1]):
            out_[ix] = one(b[ix])
        return out_[()] if out_.ndim == 0 else out_.view(SArr)
    return f


f_argmax = _arg(lambda a, b: a > b)
f_argmin = _arg(lambda a, b: a < b)


def f_argsort(a, axis=-1, kind=None, order=None):
    b = _axis_arr(a)
    return _fin(np.argsort(b, axis=axis, kind='stable'))


def f_sort(a, axis=-1, kind=None, order=None):
    return _fin(np.sort(_axis_arr(a), axis=axis, kind='stable'))


def f_argpartition(a, kth, axis=-1, **k):
    return f_argsort(a, axis)


def f_partition(a, kth, axis=-1, **k):
    return f_sort(a, axis)


def f_clip(a, a_min=None, a_max=None, out=None, **k):
    r = a
    if not isinstance(r, (np.ndarray, Sym)) and isinstance(r, (list, tuple)):
        r = sarr(r)
    if a_min is not None:
        r = _bmap(s_max, r, a_min)
    if a_max is not None:
        r = _bmap(s_min, r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def f_dot(a, b, out=None):
    a, b = _axis_arr(a), _axis_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return _fin(a * b)
    return _fin(np.dot(a, b))


def f_where(c, *xy):
    c = _axis_arr(c)
    if c.dtype == object:
        c = np.asarray(_tobool(c))
    if not xy:
        return _fin(np.where(c))
    x, y = xy
    return _fin(np.where(c, *[_base(q) if not isinstance(q, (list, tuple)) else _base(sarr(q)) for q in xy]))


def f_any(a, axis=None, out=None, keepdims=False, **k):
    b = _axis_arr(a)
    if b.dtype == object:
        b = np.asarray(_cast(b, bool))
    return _fin(np.any(b, axis=axis, keepdims=bool(keepdims)))


def f_all(a, axis=None, out=None, keepdims=False, **k):
    b = _axis_arr(a)
    if b.dtype == object:
        b = np.asarray(_cast(b, bool))
    return _fin(np.all(b, axis=axis, keepdims=bool(keepdims)))


def f_nonzero(a):
    b = _axis_arr(a)
    if b.dtype == object:
        b = np.asarray(_cast(b, bool))
    return _fin(np.nonzero(b))


def f_count_nonzero(a, axis=None, **k):
    b = _axis_arr(a)
    if b.dtype == object:
        b = np.asarray(_cast(b, bool))
    return np.count_nonzero(b, axis=axis)


def f_round(a, decimals=0, out=None):
    def one(x):
        if isinstance(x, Sym):
            if x.n.op == 'c':
                return float(np.round(float(x), decimals))
            raise Unsupported('rounding a symbolic value')
        return float(np.round(x, decimals))
    return _bmap(one, a)


def f_einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ins, out = (spec.split('->') + [None])[:2]
    ins = ins.split(',')
    ops = [_axis_arr(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    if out is None:
        out = ''.join(sorted(c for c in dims if sum(s.count(c) for s in ins) == 1))
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for ix in np.ndindex(*[dims[c] for c in out]):
        env = dict(zip(out, ix))
        acc = 0.0
        for jx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, jx))
            p = None
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] for c in s)]
                p = v if p is None else p * v
            acc = acc + p
        res[ix] = acc
    return res[()] if res.ndim == 0 else res.view(SArr)


def f_diff(a, n=1, axis=-1, **k):
    b = sarr(a)
    for _ in range(n):
        sl1 = [slice(None)] * b.ndim
        sl2 = [slice(None)] * b.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        b = b[tuple(sl1)] - b[tuple(sl2)]
    return b


def f_nan_to_num(a, *r, **k):
    return a


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    b = _axis_arr(a)
    if b.dtype != object:
        return _fin(np.unique(b, return_index, return_inverse, return_counts, axis))
    if axis is not None:
        if axis != 0:
            raise Unsupported('unique axis')
        rows = [tuple(r) for r in b]
        import functools

        def cmp(p, q):
            for x, y in zip(rows[p], rows[q]):
                if bool(x < y):
                    return -1
                if bool(x > y):
                    return 1
            return 0
        order = sorted(range(len(rows)), key=functools.cmp_to_key(cmp))
        same = lambda p, q: cmp(p, q) == 0
        src = b
    else:
        b = b.ravel()
        order = list(np.argsort(b, kind='stable'))
        same = lambda p, q: bool(b[p] == b[q])
        src = b
    reps, inv, cnt = [], np.zeros(len(order), dtype=int), []
    for o in order:
        if reps and same(reps[-1], o):
            cnt[-1] += 1
        else:
            reps.append(o)
            cnt.append(1)
        inv[o] = len(reps) - 1
    res = [src[np.array(reps, dtype=int)].view(SArr)]
    if return_index:
        res.append(np.array(reps, dtype=int).view(SArr))
    if return_inverse:
        res.append(inv.view(SArr))
    if return_counts:
        res.append(np.array(cnt, dtype=int).view(SArr))
    return res[0] if len(res) == 1 else tuple(res)


def f_isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)


def f_ndim(a):
    return 0 if isinstance(a, (Sym, SymBool)) else np.ndim(_deep1(a))


def f_shape(a):
    if isinstance(a, (Sym, SymBool)):
        return ()
    return _shape(_listify(a)) if isinstance(a, (list, tuple)) else np.shape(_base(a))


def f_size(a, axis=None):
    if isinstance(a, (Sym, SymBool)):
        return 1
    return np.size(_axis_arr(a), axis)


def f_iscomplexobj(a):
    return False


def f_median(a, axis=None, **k):
    b = _axis_arr(a)
    s = np.sort(b, axis=None if axis is None else axis)
    n = s.shape[0] if axis is None else s.shape[axis]
    if axis not in (None, 0):
        raise Unsupported('median axis')
    if n % 2:
        return _fin(s[n // 2])
    return _fin((s[n // 2 - 1] + s[n // 2]) / 2)


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    a = sarr(m)
    if a.ndim == 1:
        a = a[None, :]
    if not rowvar:
        a = a.T
    if y is not None:
        b = sarr(y)
        b = b[None, :] if b.ndim == 1 else b
        a = sarr(np.concatenate([np.asarray(_base(a)), np.asarray(_base(b if rowvar else b.T))], axis=0))
    n = a.shape[1]
    d = a - f_mean(a, axis=1, keepdims=True)
    if ddof is None:
        ddof = 0 if bias else 1
    r = f_dot(d, d.T) / (n - ddof)
    return r if r.shape != (1, 1) else r[0, 0]


def f_corrcoef(x, y=None, rowvar=True, **k):
    """rows against rows; NumPy's clipping to [-1,1] is without effect in exact arithmetic"""
    c = f_cov(x, y, rowvar)
    if not isinstance(c, np.ndarray):
        return 1.0
    n = c.shape[0]
    sd = [s_sqrt(c[i, i]) for i in range(n)]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = s_div(c[i, j], c[i, i]) if i == j else s_div(c[i, j], sd[i] * sd[j])
    return out.view(SArr)


def s_rankdata(a, method='average', axis=None, **k):
    if method not in ('average', 'min', 'max', 'ordinal'):
        raise Unsupported('rankdata ' + str(method))
    b = np.asarray(_base(sarr(a)))
    if axis is None:
        b = b.ravel()
        axis = 0
    b = np.moveaxis(b, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        r = b[ix]
        for i in range(len(r)):
            lo = sum(1 for j in range(len(r)) if j != i and bool(r[j] < r[i]))
            eq = sum(1 for j in range(len(r)) if j != i and bool(r[j] == r[i]))
            if method == 'ordinal':
                eq = sum(1 for j in range(i) if bool(r[j] == r[i]))
            out[ix + (i,)] = lo + 1 + {'average': eq / 2.0, 'min': 0, 'max': eq, 'ordinal': eq}[method]
    return _fin(np.moveaxis(out, -1, axis))


class _Corr(tuple):
    statistic = correlation = property(lambda s: s[0])

    @property
    def pvalue(self):
        raise Unsupported('p-value of a correlation')


def s_pearsonr(x, y, **k):
    return _Corr((f_corrcoef(x, y)[0, 1], None))


def s_spearmanr(a, b=None, axis=0, **k):
    A = sarr(a)
    if b is not None and A.ndim == 1:
        return _Corr((f_corrcoef(s_rankdata(A), s_rankdata(sarr(b)))[0, 1], None))
    if axis == 0:
        A = A.T
    if b is not None:
        B = sarr(b)
        A = f_concat((A, B.T if axis == 0 else B))
    R = sarr([list(s_rankdata(r)) for r in A])
    C = f_corrcoef(R)
    return _Corr((C if len(R) > 2 else C[0, 1], None))


def f_concat(t):
    return FUNCS['concatenate'](t, axis=0)


def f_cross(*a, **k):
    raise Unsupported('cross')


def f_outer(a, b, out=None):
    a, b = _axis_arr(a).ravel(), _axis_arr(b).ravel()
    return _fin(np.multiply(a[:, None], b[None, :]))


def f_vectorize(pyfunc, *a, **k):
    def g(*args):
        return _bmap(pyfunc, *args)
    return g


def f_apply_along_axis(f, axis, arr, *a, **k):
    b = np.moveaxis(_axis_arr(arr), axis, -1)
    outs = []
    for ix in np.ndindex(*b.shape[:-1]):
        outs.append(f(b[ix].view(SArr), *a, **k))
    r = sarr(outs)
    r = r.reshape(tuple(b.shape[:-1]) + r.shape[1:])
    if r.ndim == b.ndim:
        r = np.moveaxis(r, -1, axis)
    return r


def f_fill_diagonal(a, val, wrap=False):
    b = _base(a)
    n = min(b.shape)
    v = _base(sarr(val)) if isinstance(val, (list, tuple)) else val
    for i in range(n):
        b[i, i] = v if not isinstance(v, np.ndarray) else v.ravel()[i % v.size]


def f_nanarg(f):
    return f


def f_insert(arr, obj, values, axis=None):
    return _fin(np.insert(_axis_arr(arr), _deep1(obj), _axis_arr(values) if not isinstance(values, Sym) else values, axis))


def f_append(arr, values, axis=None):
    a, v = _axis_arr(arr), _axis_arr(values)
    if axis is None:
        a, v = a.ravel(), v.ravel()
        axis = 0
    return f_concatenate([a, v], axis=axis)


def _cat(name):
    rf = getattr(np, name)

    def f(l, *a, **k):
        l = [(_axis_arr(x)) for x in (l if not isinstance(l, np.ndarray) else list(l))]
        k.pop('dtype', None)
        return _fin(rf(l, *a, **k))
    f.__name__ = name
    return f


f_concatenate = _cat('concatenate')


def f_searchsorted(a, v, side='left', sorter=None):
    a = list(_axis_arr(a))

    def one(x):
        k = 0
        for i, y in enumerate(a):
            if bool(y < x) if side == 'left' else bool(y <= x):
                k = i + 1
        return k
    r = _bmap(one, v)
    return r.astype(int) if isinstance(r, np.ndarray) else r


def f_in1d(a, b, *r, **k):
    a, b = _axis_arr(a).ravel(), _axis_arr(b).ravel()
    if a.dtype == object or b.dtype == object:
        return sarr([any(bool(x == y) for y in b) for x in a], dtype=bool)
    return _fin(np.in1d(a, b, *r, **k))


def f_isin(a, b, **k):
    s = np.shape(_axis_arr(a))
    return f_in1d(a, b).reshape(s)


def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = sarr(y)
    if x is None:
        return f_sum((y[1:] + y[:-1]) * dx / 2)
    x = sarr(x)
    return f_sum((y[1:] + y[:-1]) * (x[1:] - x[:-1]) / 2)


class _FMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class SFloat(float, metaclass=_FMeta):
    """float(), np.float64(): symbolic values pass through"""

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray):
            if cls is SFloat64 and x.size != 1:
                return sarr(x, float)
            if x.size == 1:
                return SFloat(x.ravel()[0])
        return float(x)


class SFloat64(SFloat):
    pass


class _IMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SInt(int, metaclass=_IMeta):
    def __new__(cls, x=0, *a):
        return int(x, *a)


def f_fromiter(it, dtype=float, count=-1, **k):
    l = list(it)
    return sarr(l if count < 0 else l[:count], dtype)


def f_nditer(a, *r, **k):
    return iter([x for x in np.asarray(_base(sarr(a))).ravel()])


def f_gradient(f, *va, axis=None, edge_order=1):
    a = sarr(f)
    if a.ndim != 1 or edge_order != 1 or len(va) > 1 or (va and isinstance(va[0], np.ndarray)):
        raise Unsupported('gradient of an array')
    h = va[0] if va else 1.0
    n = len(a)
    return sarr([(a[min(i + 1, n - 1)] - a[max(i - 1, 0)]) / (h * (min(i + 1, n - 1) - max(i - 1, 0))) for i in range(n)])


def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('periodic interp')
    xp, fp = list(xp), list(fp)

    def one(v):
        if v <= xp[0]:
            return fp[0] if left is None or v == xp[0] else left
        for i in range(1, len(xp)):
            if v <= xp[i]:
                return fp[i - 1] + (fp[i] - fp[i - 1]) * ((v - xp[i - 1]) / (xp[i] - xp[i - 1]))
        return fp[-1] if right is None else right
    return one(x) if not isinstance(x, (list, tuple, np.ndarray)) or np.ndim(_base(x)) == 0 else sarr([one(v) for v in x])


def f_finfo(d=float):
    return np.finfo(float if isinstance(d, type) and issubclass(d, float) or isinstance(d, (float, Sym)) or d == object else _dt(d))


def f_bincount(x, weights=None, minlength=0):
    x = np.asarray(_base(sarr(x)))
    x = np.array([int(v) for v in x], dtype=int)
    if weights is None:
        return _fin(np.bincount(x, minlength=minlength))
    n = max(minlength, int(x.max()) + 1 if len(x) else 0)
    out = [0.0] * n
    for v, w in zip(x, weights):
        out[v] = out[v] + w
    return sarr(out)


def f_block(l):
    if isinstance(l, list) and l and isinstance(l[0], list):
        return FUNCS['vstack']([FUNCS['hstack'](r) for r in l])
    return FUNCS['hstack'](l) if isinstance(l, list) else sarr(l)


def f_quantile(a, q, axis=None, **k):
    if axis is not None or k or isinstance(q, (list, tuple, np.ndarray, Sym)):
        raise Unsupported('quantile')
    l = list(f_sort(sarr(a).ravel()))
    p = q * (len(l) - 1)
    i = int(math.floor(p))
    return l[i] if i == p else l[i] + (l[i + 1] - l[i]) * (p - i)


def f_heaviside(a, b):
    return _bmap(lambda x, y: 0.0 if x < 0 else (y if x == 0 else 1.0), sarr(a) if isinstance(a, list) else a, b)


FUNCS = {}
for _n in ('zeros', 'ones', 'empty', 'eye', 'identity', 'full'):
    FUNCS[_n] = _creat(_n)
for _n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
    FUNCS[_n] = _creat_like(_n)
for _n in ('concatenate', 'vstack', 'hstack', 'stack', 'dstack', 'column_stack', 'row_stack'):
    FUNCS[_n] = _cat(_n)
FUNCS.update(dict(
    array=f_array, asarray=f_asarray, asanyarray=f_asarray, ascontiguousarray=f_asarray, asfarray=f_asarray,
    copy=lambda a, *r, **k: sarr(a), arange=f_arange, linspace=f_linspace, isclose=f_isclose,
    allclose=f_allclose, array_equal=f_array_equal, array_equiv=f_array_equal, sum=f_sum, mean=f_mean,
    average=f_average, var=f_var, std=f_std, max=f_max, amax=f_max, min=f_min, amin=f_min, nanmax=_nanred(f_max),
    nanmin=_nanred(f_min), nansum=_nanred(f_sum), nanmean=_nanred(f_mean), argmax=f_argmax, argmin=f_argmin, nanargmax=f_argmax,
    nanargmin=f_argmin, argsort=f_argsort, sort=f_sort, argpartition=f_argpartition, partition=f_partition,
    clip=f_clip, dot=f_dot, where=f_where, any=f_any, all=f_all, nonzero=f_nonzero, flatnonzero=lambda a: f_nonzero(
        sarr(a).ravel())[0], argwhere=lambda a: _fin(np.argwhere(np.asarray(_cast(sarr(a), bool)))),
    count_nonzero=f_count_nonzero, round=f_round, around=f_round, round_=f_round, einsum=f_einsum, diff=f_diff,
    nan_to_num=f_nan_to_num, unique=f_unique, isscalar=f_isscalar, ndim=f_ndim, shape=f_shape, size=f_size,
    median=f_median, cov=f_cov, corrcoef=f_corrcoef, outer=f_outer, inner=lambda a, b: f_dot(a, np.asarray(_base(sarr(b))).T),
    vdot=lambda a, b: f_dot(sarr(a).ravel(), sarr(b).ravel()), vectorize=f_vectorize,
    apply_along_axis=f_apply_along_axis, fill_diagonal=f_fill_diagonal, append=f_append, insert=f_insert,
    searchsorted=f_searchsorted, in1d=f_in1d, isin=f_isin, trapz=f_trapz, interp=f_interp, gradient=f_gradient, finfo=f_finfo, bincount=f_bincount, block=f_block,
    quantile=f_quantile, percentile=lambda a, q, **k: f_quantile(a, q / 100, **k),
    ptp=lambda a, axis=None, **k: f_max(a, axis=axis) - f_min(a, axis=axis),
    iscomplexobj=f_iscomplexobj, isrealobj=lambda a: True, real=lambda a: a, abs=lambda a: _bmap(s_abs, a),
    product=lambda a, **k: sarr(a).prod(**k),
))


class SUfunc:
    """a NumPy ufunc that also accepts bare symbolic scalars"""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        nin = self._uf.nin
        a = list(a)
        if len(a) > nin:
            k['out'] = a.pop()
        a = [sarr(x) if isinstance(x, (list, tuple)) else x for x in a]
        if _anyobj(a):
            return ufunc_call(self._uf, '__call__', a, k)
        if self.__name__ in ('exp', 'log') and len(a) == 1:
            x = a[0]
            if isinstance(x, np.ndarray):
                return _bmap(UNARY[self.__name__], x)
            return UNARY[self.__name__](x)
        a = [_base(x) for x in a]
        with np.errstate(all='ignore'):
            r = self._uf(*a, **{kk: _base(v) for kk, v in k.items()})
        return _fin(r)

    def _m(self, method):
        def f(*a, **k):
            a = [sarr(x) if isinstance(x, (list, tuple)) and i == 0 else x for i, x in enumerate(a)]
            return ufunc_call(self._uf, method, a, k)
        return f

    @property
    def reduce(self):
        return self._m('reduce')

    @property
    def accumulate(self):
        return self._m('accumulate')

    @property
    def outer(self):
        def f(a, b, **k):
            a, b = sarr(a), sarr(b)
            return self(a.reshape(a.shape + (1,) * b.ndim), b)
        return f

    @property
    def at(self):
        def f(a, idx, b=None):
            base = _base(a)
            idx = _idx(_base(idx) if not isinstance(idx, (list,)) else np.array(idx))
            if isinstance(idx, tuple):
                idxs = np.broadcast_arrays(*[np.asarray(i) for i in idx])
                keys = [tuple(int(q.ravel()[j]) for q in idxs) for j in range(idxs[0].size)]
                shp = idxs[0].shape
            else:
                ii = np.asarray(idx)
                if ii.dtype == bool:
                    ii = np.nonzero(ii)[0]
                keys = [int(q) for q in ii.ravel()]
                shp = ii.shape
            bb = None
            if b is not None:
                bb = np.asarray(_base(b) if not isinstance(b, (list, tuple)) else _base(sarr(b)), dtype=object)
                tail = base[keys[0]].shape if keys and isinstance(base[keys[0]], np.ndarray) else ()
                bb = np.broadcast_to(bb, tuple(shp) + tail).reshape((len(keys),) + tail)
            for j, key in enumerate(keys):
                base[key] = self(base[key], bb[j]) if b is not None else self(base[key])
        return f

    def __getattr__(self, n):
        return getattr(self._uf, n)


# ---------------------------------------------------------------- linalg
def _mat(a):
    return np.asarray(_base(a) if not isinstance(a, (list, tuple)) else _base(sarr(a)), dtype=object)


def m_det(A):
    n = A.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    s = 0.0
    for j in range(n):
        a = A[0, j]
        if not isinstance(a, Sym) and a == 0:
            continue
        M = np.delete(A[1:], j, axis=1)
        s = s + (a if j % 2 == 0 else -a) * m_det(M)
    return s


def m_inv(A):
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    d = m_det(A)
    nonzero(d)
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = 1 / d if isinstance(d, Sym) else 1.0 / d
        return out
    for i in range(n):
        for j in range(n):
            M = np.delete(np.delete(A, j, axis=0), i, axis=1)
            c = m_det(M)
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return out


LinAlgError = _rl.LinAlgError


def nonzero(d):
    """singular matrices raise; the regular case is assumed when undecided"""
    e = _engine[0]
    if isinstance(d, Sym):
        if getattr(e, 'fork_singular', False):
            if e.branch(X.eq0(d.n)):
                raise LinAlgError('Singular matrix')
        else:
            e.assert_(X.bnot(X.eq0(d.n)))
    elif d == 0:
        raise LinAlgError('Singular matrix')


def la_inv(a):
    A = _mat(a)
    if A.ndim > 2:
        return sarr([la_inv(x) for x in A])
    r = _chol_inv(a)
    if r is not None:
        return r
    if not _anysym(A):
        return _fin(_rl.inv(A.astype(float)))
    return m_inv(A).view(SArr)


def _chol_inv(a):
    return None


def _anysym(A):
    return any(isinstance(x, Sym) for x in A.ravel())


def la_solve(a, b, *r, **k):
    A = _mat(a)
    B = _mat(b)
    if not _anysym(A) and not _anysym(B):
        return _fin(_rl.solve(A.astype(float), B.astype(float)))
    n = A.shape[0]
    if A.shape[1] != n or B.shape[0] != n:
        raise LinAlgError('incompatible dimensions')
    tri = None
    if all(not isinstance(A[i, j], Sym) and A[i, j] == 0 for i in range(n) for j in range(i + 1, n)):
        tri = 'L'
    elif all(not isinstance(A[i, j], Sym) and A[i, j] == 0 for i in range(n) for j in range(i)):
        tri = 'U'
    if tri and n > 1:
        return _trisolve(A, B, tri == 'L')
    return f_dot(m_inv(A).view(SArr), B.view(SArr))


def _trisolve(A, B, lower):
    n = A.shape[0]
    Xs = np.empty(B.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for i in order:
        acc = B[i]
        for j in (range(i) if lower else range(i + 1, n)):
            acc = acc - A[i, j] * Xs[j]
        if isinstance(A[i, i], Sym):
            nonzero(A[i, i])
        elif A[i, i] == 0:
            raise LinAlgError('Singular matrix')
        Xs[i] = acc / A[i, i] if not isinstance(acc, np.ndarray) else elementwise(lambda x: x / A[i, i], acc)
    return Xs.view(SArr)


def la_cholesky(a, lower=True, **k):
    A = _mat(a)
    n = A.shape[0]
    if not _anysym(A):
        return _fin(_rl.cholesky(A.astype(float)))
    e = _engine[0]
    hook = getattr(e, 'chol_hook', None)
    if hook is not None:
        hook(A)
    L = np.empty((n, n), dtype=object)
    L[...] = 0.0
    for j in range(n):
        s = A[j, j]
        for k2 in range(j):
            s = s - L[j, k2] * L[j, k2]
        if isinstance(s, Sym):
            if getattr(e, 'fork_singular', False):
                if e.branch(X.le0(s.n)):
                    raise LinAlgError('Matrix is not positive definite')
            else:
                e.assert_(X.bnot(X.le0(s.n)))
        elif s <= 0:
            raise LinAlgError('Matrix is not positive definite')
        L[j, j] = s_sqrt(s)
        for i in range(j + 1, n):
            t = A[i, j]
            for k2 in range(j):
                t = t - L[i, k2] * L[j, k2]
            L[i, j] = t / L[j, j]
    return L.view(SArr)


def la_det(a):
    A = _mat(a)
    if A.ndim > 2:
        return sarr([la_det(x) for x in A])
    return m_det(A)


def la_slogdet(a):
    d = la_det(a)
    if isinstance(d, Sym):
        s = s_sign(d)
        return s, s_log_(d if s > 0 else -d)
    return _rl.slogdet(_mat(a).astype(float))


def la_norm(x, ord=None, axis=None, keepdims=False):
    a = sarr(x)
    if ord in (None, 2, 'fro') and (axis is not None or a.ndim == 1 or ord is None or ord == 'fro'):
        s = f_sum(a * a, axis=axis, keepdims=keepdims)
        return _bmap(s_sqrt, s) if isinstance(s, np.ndarray) else s_sqrt(s)
    if ord == 1 and (axis is not None or a.ndim == 1):
        return f_sum(_bmap(s_abs, a), axis=axis, keepdims=keepdims)
    if ord in (math.inf, np.inf) and (axis is not None or a.ndim == 1):
        return f_max(_bmap(s_abs, a), axis=axis, keepdims=keepdims)
    raise Unsupported('norm')


def la_pinv(a, *r, **k):
    return la_inv(a)


def la_lstsq(*a, **k):
    raise Unsupported('lstsq')


def la_eigh(a, *r, **k):
    A = _mat(a)
    if not _anysym(A):
        return _fin(_rl.eigh(A.astype(float)))
    raise Unsupported('eigh of a symbolic matrix')


def la_matrix_rank(a, *r, **k):
    return _rl.matrix_rank(_mat(a).astype(float))


def la_multi_dot(l):
    r = l[0]
    for x in l[1:]:
        r = f_dot(r, x)
    return r


linalg = types.SimpleNamespace(
    inv=la_inv, pinv=la_pinv, solve=la_solve, cholesky=la_cholesky, det=la_det, slogdet=la_slogdet, norm=la_norm,
    LinAlgError=LinAlgError, eigh=la_eigh, eigvalsh=lambda a, *r: la_eigh(a)[0], eig=la_eigh, lstsq=la_lstsq,
    matrix_rank=la_matrix_rank, multi_dot=la_multi_dot, matrix_power=lambda a, n: la_multi_dot([a] * n),
    svd=lambda *a, **k: (_ for _ in ()).throw(Unsupported('svd')),
    cond=lambda a, *r: 1.0)


# ---- scipy.linalg
class ChoFactor(tuple):
    """the result of cho_factor: behaves as the (c, lower) pair"""


def sl_cho_factor(a, lower=False, **k):
    L = la_cholesky(a)
    c = L if lower else L.T
    r = ChoFactor((c, lower))
    return r


def sl_cho_solve(cl, b, **k):
    c, lower = cl
    L = _mat(c if lower else sarr(c).T)
    # only the relevant triangle of c is referenced
    n = L.shape[0]
    T = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            T[i, j] = L[i, j] if j <= i else 0.0
    y = _trisolve(T, _mat(b), True)
    return _trisolve(T.T.copy(), _mat(y), False)


def sl_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    A = _mat(a)
    n = A.shape[0]
    T = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            T[i, j] = A[i, j] if (j <= i if lower else j >= i) else 0.0
            if unit_diagonal and i == j:
                T[i, j] = 1.0
    if trans in (1, 'T', 2, 'C'):
        T = T.T.copy()
        lower = not lower
    return _trisolve(T, _mat(b), lower)


def sl_cholesky(a, lower=False, **k):
    L = la_cholesky(a)
    return L if lower else L.T


def sl_block_diag(*ms):
    ms = [np.atleast_2d(_mat(m)) for m in ms]
    r = sum(m.shape[0] for m in ms)
    c = sum(m.shape[1] for m in ms)
    out = np.empty((r, c), dtype=object)
    out[...] = 0.0
    i = j = 0
    for m in ms:
        out[i:i + m.shape[0], j:j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return out.view(SArr)


sp_linalg = types.SimpleNamespace(
    inv=la_inv, pinv=la_pinv, solve=la_solve, det=la_det, norm=la_norm, cho_factor=sl_cho_factor,
    cho_solve=sl_cho_solve, cholesky=sl_cholesky, solve_triangular=sl_solve_triangular,
    block_diag=sl_block_diag, LinAlgError=LinAlgError, eigh=la_eigh)


# ---- scipy.special / stats
def _vec(f, n=1):
    def g(*a, **k):
        out = k.pop('out', None)
        if any(isinstance(x, (list, tuple)) for x in a):
            a = [sarr(x) if isinstance(x, (list, tuple)) else x for x in a]
        r = _bmap(f, *a)
        if out is not None:
            out[...] = r
        return r
    return g


def s_logsumexp(a, axis=None, b=None, keepdims=False, **k):
    a = sarr(a)
    e = _bmap(s_exp, a)
    if b is not None:
        e = e * b
    s = f_sum(e, axis=axis, keepdims=keepdims)
    return _bmap(s_log_, s) if isinstance(s, np.ndarray) else s_log_(s)


def s_softmax(a, axis=None):
    e = _bmap(s_exp, sarr(a))
    return e / f_sum(e, axis=axis, keepdims=True)


def _sp_other(name):
    import scipy.special as sp
    rf = getattr(sp, name)

    def g(*a, **k):
        if any(_anyobj([x]) and _anysym(_mat(x)) for x in a):
            return _bmap(lambda *q: Sym(X.fun(name, *[node(v) for v in q])), *a)
        return _fin(rf(*[np.asarray(_base(x), dtype=float) if isinstance(x, np.ndarray) else x for x in a], **k))
    return g


class _Mod(types.ModuleType):
    pass


def s_xlogy(a, b):
    if not isinstance(a, Sym) and a == 0:
        return 0.0
    if isinstance(a, Sym) and bool(a == 0):
        return 0.0
    return a * s_log_(b)


def mkmod(name, d, fallback=None):
    class M(_Mod):
        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            if fallback is not None:
                return fallback(k)
            def unmodelled(*a, **kw):
                raise Unsupported('%s.%s is not modelled' % (name, k))
            return unmodelled
    m = M(name)
    for k, v in d.items():
        setattr(m, k, v)
    return m


special = mkmod('scipy.special', dict(
    ndtr=_vec(s_ndtr), log_ndtr=_vec(s_log_ndtr), erf=_vec(s_erf_), erfc=_vec(lambda x: 1 - s_erf_(x)),
    gamma=_vec(s_gamma), gammaln=_vec(s_gammaln), loggamma=_vec(s_gammaln), digamma=_vec(s_digamma),
    psi=_vec(s_digamma), polygamma=_vec(s_polygamma), beta=_vec(s_beta), betaln=_vec(s_betaln),
    expit=_vec(lambda x: 1 / (1 + s_exp(-x))), logit=_vec(lambda p: s_log_(p) - s_log_(1 - p)),
    logsumexp=s_logsumexp, softmax=s_softmax, xlogy=_vec(s_xlogy), xlog1py=_vec(lambda a, b: s_xlogy(a, 1 + b)),
    entr=_vec(lambda x: -s_xlogy(x, x)), factorial=lambda n, *a, **k: float(math.factorial(int(n))),
    expm1=_vec(s_expm1), log1p=_vec(s_log1p)), _sp_other)


def _ls(f):
    """location/scale form of a standardised distribution function"""
    def g(x, loc=0, scale=1, **k):
        def one(x, l, s):
            z = (x - l) / s if not (isinstance(l, (int, float)) and l == 0 and isinstance(s, (int, float))
                                    and s == 1) else x
            return f(z, s)
        args = [sarr(q) if isinstance(q, (list, tuple)) else q for q in (x, loc, scale)]
        return _bmap(one, *args)
    return g


class _Norm:
    cdf = staticmethod(_ls(lambda z, s: s_ndtr(z)))
    sf = staticmethod(_ls(lambda z, s: s_ndtr(-z)))
    logcdf = staticmethod(_ls(lambda z, s: s_log_(s_ndtr(z))))
    logsf = staticmethod(_ls(lambda z, s: s_log_(s_ndtr(-z))))
    pdf = staticmethod(_ls(lambda z, s: s_npdf(z) / s))
    logpdf = staticmethod(_ls(lambda z, s: s_nlogpdf(z) - s_log_(s)))

    @staticmethod
    def ppf(q, loc=0, scale=1):
        import scipy.special as sp
        return _bmap(lambda x: Sym(X.fun('ndtri', node(x))) if isinstance(x, Sym) else float(sp.ndtri(float(x))),
                     q) * scale + loc

    @staticmethod
    def rvs(loc=0, scale=1, size=None, random_state=None):
        return rand_normal(loc, scale, size)

    def __call__(self, loc=0, scale=1):
        me = self

        class Fz:
            def __getattr__(s2, nm):
                return lambda x: getattr(me, nm)(x, loc, scale)
        return Fz()


def s_beta_logpdf(x, a, b):
    return (a - 1) * s_log_(x) + (b - 1) * s_log_(1 - x) - s_betaln(a, b)


class _Beta:
    logpdf = staticmethod(_vec(s_beta_logpdf))
    pdf = staticmethod(_vec(lambda x, a, b: s_exp(s_beta_logpdf(x, a, b))))

    @staticmethod
    def cdf(x, a, b):
        return _bmap(lambda x, a, b: Sym(X.fun('betainc', node(a), node(b), node(x))), x, a, b)

    @staticmethod
    def mean(a, b):
        return a / (a + b)

    @staticmethod
    def rvs(a, b, size=None, **k):
        return rand_uniform('beta', 0.0, 1.0, size)


class _Gamma:
    @staticmethod
    def logpdf(x, a, loc=0, scale=1):
        return _bmap(lambda x, a, sc: (a - 1) * s_log_(x / sc) - x / sc - s_gammaln(a) - s_log_(sc), x - loc, a, scale)

    @staticmethod
    def pdf(x, a, loc=0, scale=1):
        r = _Gamma.logpdf(x, a, loc, scale)
        return _bmap(s_exp, r)

    @staticmethod
    def rvs(a, loc=0, scale=1, size=None, **k):
        return rand_pos('gamma', size)


def _lower(C):
    """the symmetric matrix SciPy reads from the lower triangle"""
    out = np.array(C, dtype=object)
    for i in range(out.shape[0]):
        for j in range(i):
            out[j, i] = out[i, j]
    return out


def mvn_cdf(x, mean, cov):
    """P(Y <= x) for Y ~ N(mean, cov): an uninterpreted function of its arguments
    in (0,1); a singular covariance raises as SciPy does"""
    mu = list(sarr(mean).ravel())
    d = len(mu)
    C = _mat(cov).reshape(d, d)
    C = _lower(C)
    det = m_det(C)
    e = _engine[0]
    if isinstance(det, Sym):
        if e.branch(X.le0(det.n)):
            raise LinAlgError('singular matrix')
    elif det <= 0:
        raise LinAlgError('singular matrix')
    xs = list(np.broadcast_to(_mat(sarr(x)), (d,)))
    if d == 1:
        return s_ndtr((xs[0] - mu[0]) / s_sqrt(C[0, 0]))
    return Sym(X.fun('mvn_cdf', node(d), *[node(q) for q in xs + mu + list(C.ravel())]))


class _FrozenMVN:
    def __init__(self, mean, cov):
        self.mean, self.cov = mean, cov
        d = m_det(_lower(_mat(cov)))
        if isinstance(d, Sym):
            if _engine[0].branch(X.le0(d.n)):
                raise LinAlgError('singular matrix')
        elif d <= 0:
            raise LinAlgError('singular matrix')

    def cdf(self, x, **k):
        return mvn_cdf(x, self.mean, self.cov)

    def rvs(self, size=None, **k):
        return RANDOM.multivariate_normal(self.mean, self.cov, size)

    def logpdf(self, x):
        return _MVN.logpdf(x, self.mean, self.cov)


class _MVN:
    def __call__(self, mean=None, cov=1, allow_singular=False, **k):
        return _FrozenMVN(mean, cov)

    @staticmethod
    def cdf(x, mean=None, cov=1, **k):
        return mvn_cdf(x, mean, cov)

    @staticmethod
    def rvs(mean=None, cov=1, size=None, **k):
        return RANDOM.multivariate_normal(mean, cov, size)

    @staticmethod
    def pdf(x, mean=None, cov=1, **k):
        x = sarr(x)
        n = len(sarr(mean).ravel())
        if x.ndim == 1 and n == 1:
            x = x[:, np.newaxis]
        if x.ndim < 2:
            return s_exp(_MVN.logpdf(x, mean, cov))
        out = _bmap(s_exp, sarr([_MVN.logpdf(r, mean, cov) for r in x]))
        return out[0] if len(x) == 1 else out

    @staticmethod
    def logpdf(x, mean, cov, **k):
        d = sarr(x) - mean
        C = _mat(cov)
        n = C.shape[0]
        q = f_dot(f_dot(d, la_inv(C.view(SArr))), d)
        return -0.5 * (q + s_log_(la_det(C.view(SArr)))) - 0.5 * n * s_log_(Sym(X.mul2(X.const(Fraction(2)), X.PI)))


def _entropy(pk, qk=None, base=None, axis=0):
    p = sarr(pk)
    p = p / f_sum(p, axis=axis, keepdims=True)
    if qk is None:
        S = -f_sum(_bmap(lambda x: s_xlogy(x, x), p), axis=axis)
    else:
        q = sarr(qk)
        q = q / f_sum(q, axis=axis, keepdims=True)
        S = f_sum(_bmap(lambda x, y: s_xlogy(x, x) - s_xlogy(x, y), p, q), axis=axis)
    if base is not None:
        S = S / s_log_(base)
    return S


stats = mkmod('scipy.stats', dict(norm=_Norm(), beta=_Beta(), gamma=_Gamma(), multivariate_normal=_MVN(),
                                  entropy=_entropy, rankdata=s_rankdata, pearsonr=s_pearsonr, spearmanr=s_spearmanr))


def sd_cdist(a, b, metric='euclidean', **k):
    a, b = _mat(a), _mat(b)
    out = np.empty((a.shape[0], b.shape[0]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[0]):
            d = a[i] - b[j]
            if metric == 'sqeuclidean':
                v = np.sum(d * d)
            elif metric == 'euclidean':
                v = s_sqrt(np.sum(d * d))
            elif metric in ('cityblock',):
                v = sum(abs(x) for x in d)
            else:
                raise Unsupported('cdist ' + metric)
            out[i, j] = v
    return out.view(SArr)


def sd_pdist(a, metric='euclidean', **k):
    M = _mat(sd_cdist(a, a, metric))
    n = M.shape[0]
    return sarr([M[i, j] for i in range(n) for j in range(i + 1, n)])


def sd_squareform(v, *a, **k):
    v = _mat(v)
    if v.ndim == 2:
        n = v.shape[0]
        return sarr([v[i, j] for i in range(n) for j in range(i + 1, n)])
    n = int((1 + math.sqrt(1 + 8 * v.size)) / 2)
    M = np.empty((n, n), dtype=object)
    M[...] = 0.0
    k2 = 0
    for i in range(n):
        for j in range(i + 1, n):
            M[i, j] = M[j, i] = v[k2]
            k2 += 1
    return M.view(SArr)


distance = mkmod('scipy.spatial.distance', dict(
    cdist=sd_cdist, pdist=sd_pdist, squareform=sd_squareform,
    euclidean=lambda a, b: la_norm(sarr(a) - sarr(b)),
    sqeuclidean=lambda a, b: f_sum((sarr(a) - sarr(b)) * (sarr(a) - sarr(b)))))


# ---------------------------------------------------------------- random
# Random sources are nondeterministic: every value of the documented range may
# be returned.  The same classes serve the concrete replay, which draws the
# values the solver chose.
def E():
    from . import ctx
    c = ctx.cur()
    if c is None:
        raise Unsupported('random source used outside a run')
    return c


def _sized(f, size):
    if size is None:
        return f()
    if isinstance(size, (int, np.integer)):
        size = (int(size),)
    e = E()
    out = e.new_array(tuple(int(s) for s in size))
    for ix in np.ndindex(*out.shape):
        out[ix] = f()
    return out


def rand_uniform(nm, lo, hi, size, strict=False):
    e = E()

    def one(l=None, h=None):
        u = e.real('rnd_' + nm, getattr(e, 'u_low', 0.0), 1.0)
        if nm == 'u':
            # [0, 1): the upper end is never drawn
            if e.mode == 'sym':
                e.assert_(bnode(u < 1))
            elif u >= 1:
                u = np.nextafter(1.0, 0.0)
        e.draws.append((nm, u))
        l_, h_ = (lo, hi)
        if isinstance(l_, (int, float)) and l_ == 0 and isinstance(h_, (int, float)) and h_ == 1:
            return u
        return l_ + (h_ - l_) * u
    if isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray):
        sh = np.broadcast(np.asarray(lo), np.asarray(hi)).shape if size is None else size
        return lo + (hi - lo) * rand_uniform(nm, 0.0, 1.0, sh)
    return _sized(one, size)


def rand_normal(loc=0.0, scale=1.0, size=None):
    e = E()
    if isinstance(loc, np.ndarray) or isinstance(scale, np.ndarray):
        sh = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else size
        return loc + scale * rand_normal(0.0, 1.0, sh)
    def one():
        z = e.real('rnd_normal')
        e.draws.append(('normal', z))
        return loc + scale * z
    return _sized(one, size)


def rand_pos(nm, size):
    e = E()
    return _sized(lambda: e.real('rnd_' + nm, 0.0, None, True), size)


class RandomShim:
    def __init__(self, *a, **k):
        pass

    def seed(self, *a, **k):
        pass

    def default_rng(self, *a, **k):
        return self

    def RandomState(self, *a, **k):
        return self
    Generator = RandomState

    def get_state(self, *a, **k):
        return ()

    def set_state(self, *a, **k):
        pass

    def random(self, size=None, *a, **k):
        return rand_uniform('u', 0.0, 1.0, size)
    random_sample = random
    ranf = random
    sample = random

    def rand(self, *sh):
        return rand_uniform('u', 0.0, 1.0, sh if sh else None)

    def randn(self, *sh):
        return rand_normal(0.0, 1.0, sh if sh else None)

    def standard_normal(self, size=None):
        return rand_normal(0.0, 1.0, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return rand_normal(loc, scale, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return rand_uniform('u', low, high, size)

    def beta(self, a, b, size=None):
        return rand_uniform('beta', 0.0, 1.0, size)

    def gamma(self, shape, scale=1.0, size=None):
        return rand_pos('gamma', size)

    def exponential(self, scale=1.0, size=None):
        return rand_pos('exponential', size)

    def dirichlet(self, alpha, size=None):
        raise Unsupported('dirichlet')

    def multivariate_normal(self, mean, cov, size=None, **k):
        n = len(mean)
        if size is None:
            sh = (n,)
        elif isinstance(size, (int, np.integer)):
            sh = (int(size), n)
        else:
            sh = tuple(size) + (n,)
        e = E()
        if not hasattr(e, 'mvn_calls'):
            e.mvn_calls = []
        e.mvn_calls.append((mean, cov, size))
        out = e.new_array(sh)
        for ix in np.ndindex(*sh):
            out[ix] = e.real('rnd_mvn')
        e.mvn_out = getattr(e, 'mvn_out', []) + [out]
        return out

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high) + (1 if endpoint else 0)
        if high <= low:
            raise ValueError('low >= high')
        e = E()
        if size is None:
            return low + e.choice('randint', high - low)
        sh = (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)
        out = np.zeros(sh, dtype=int)
        for ix in np.ndindex(*sh):
            out[ix] = low + e.choice('randint', high - low)
        return out.view(SArr) if e.mode == 'sym' else out
    integers = randint
    random_integers = randint

    def _idx(self, n, size, replace, p):
        e = E()
        e.ndraws += 1
        if e.ndraws > getattr(e, 'max_draws', 10 ** 9):
            e.cut()
        e.choice_p.append(None if p is None else list(p))
        tot = 1
        if size is not None:
            tot = int(np.prod(size))
        e.groups.append((tot, bool(replace)))
        if n <= 0 and tot > 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if not replace and tot > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        pl = None
        if p is not None:
            pl = list(p)
            if len(pl) != n:
                raise ValueError("'a' and 'p' must have same size")
            for q in pl:
                if q != q:
                    raise ValueError('probabilities contain NaN')
            if e.mode == 'sym':
                if getattr(e, 'check_p', False):
                    s = 0.0
                    for q in pl:
                        s = s + q
                    e.check(e.all([e.eq(s, 1.0)] + [e.ge(q, 0.0) for q in pl]),
                            'probabilities given to a random choice form a distribution')
        left = list(range(n))
        out = []
        for _ in range(tot):
            k = e.choice('choice', len(left))
            i = left[k]
            if pl is not None:
                e.assume(e.gt(pl[i], 0.0) if e.mode == 'sym' else pl[i] > 0)
            out.append(i)
            if not replace:
                left.pop(k)
        return out

    def choice(self, a, size=None, replace=True, p=None, axis=0, **k):
        if isinstance(a, (int, np.integer)):
            pop = None
            n = int(a)
            if n <= 0 and size not in (0,):
                raise ValueError('a must be greater than 0 unless no samples are taken')
        else:
            pop = a
            n = len(a)
        ix = self._idx(n, size, replace, p)
        if pop is None:
            r = np.array(ix, dtype=int)
        else:
            pa = np.asarray(_base(pop)) if isinstance(pop, np.ndarray) else np.asarray(pop)
            if pa.ndim > 1 and E().mode == 'sym' and k.get('axis') is None and not isinstance(self, GenShim):
                pass
            r = pa[np.array(ix, dtype=int)]
        if size is None:
            v = r[0]
            return _fin(v) if isinstance(v, np.ndarray) and E().mode == 'sym' else v
        sh = (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)
        r = r.reshape(sh + r.shape[1:])
        return _fin(r) if E().mode == 'sym' else r

    def permutation(self, x, *a, **k):
        e = E()
        n = int(x) if isinstance(x, (int, np.integer)) else len(x)
        ix = np.array(e.perm('permutation', n), dtype=int)
        if isinstance(x, (int, np.integer)):
            return ix.view(SArr) if e.mode == 'sym' else ix
        pa = np.asarray(_base(x)) if isinstance(x, np.ndarray) else np.asarray(x)
        return _fin(pa[ix]) if e.mode == 'sym' else pa[ix]

    def permuted(self, x, *a, **k):
        return self.permutation(x)

    def shuffle(self, x, *a, **k):
        e = E()
        ix = e.perm('shuffle', len(x))
        if isinstance(x, np.ndarray):
            x[...] = x.copy()[np.array(ix, dtype=int)]
        else:
            x[:] = [x[i] for i in ix]


class GenShim(RandomShim):
    pass


RANDOM = RandomShim()


class PyRandom:
    """the random module"""
    def __init__(self, *a):
        pass

    def seed(self, *a, **k):
        pass

    def Random(self, *a):
        return self
    SystemRandom = Random

    def random(self):
        return rand_uniform('u', 0.0, 1.0, None)

    def uniform(self, a, b):
        return rand_uniform('u', a, b, None)

    def gauss(self, mu=0.0, sigma=1.0):
        return rand_normal(mu, sigma)
    normalvariate = gauss

    def randint(self, a, b):
        return RANDOM.randint(a, b + 1)

    def randrange(self, a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        return r[E().choice('randrange', len(r))]

    def choice(self, s):
        return s[E().choice('choice', len(s))]

    def choices(self, pop, weights=None, cum_weights=None, k=1):
        return [pop[E().choice('choice', len(pop))] for _ in range(k)]

    def sample(self, pop, k, **kw):
        pop = list(pop)
        if k > len(pop) or k < 0:
            raise ValueError('Sample larger than population or is negative')
        left = list(range(len(pop)))
        return [pop[left.pop(E().choice('sample', len(left)))] for _ in range(k)]

    def shuffle(self, x, *a):
        RANDOM.shuffle(x)


PYRANDOM = PyRandom()


# ---------------------------------------------------------------- modules
def _wrapfn(f):
    def g(*a, **k):
        a = tuple(sarr(x) if isinstance(x, list) and _deephas(_listify(x)) else x for x in a)
        return _fin(f(*_deep(a), **{kk: _deep1(v) for kk, v in k.items()}))
    g.__name__ = getattr(f, '__name__', 'f')
    return g


class NpMod(_Mod):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        v = getattr(np, k)
        if isinstance(v, np.ufunc):
            v = SUfunc(v)
        elif isinstance(v, types.ModuleType):
            return v
        elif isinstance(v, type):
            return v
        elif callable(v):
            v = _wrapfn(v)
        setattr(self, k, v)
        return v


numpy_shim = NpMod('numpy')
for _k, _v in FUNCS.items():
    setattr(numpy_shim, _k, _v)
numpy_shim.linalg = linalg
numpy_shim.random = RANDOM
numpy_shim.float64 = numpy_shim.float_ = numpy_shim.double = SFloat64
numpy_shim.fromiter = f_fromiter
numpy_shim.nditer = f_nditer
numpy_shim.heaviside = f_heaviside
numpy_shim.newaxis = None
numpy_shim.pi = math.pi
numpy_shim.inf = math.inf
numpy_shim.ndarray = np.ndarray
numpy_shim.absolute = numpy_shim.abs

math_shim = mkmod('math', dict(
    exp=s_exp, log=lambda x, base=None: s_log_(x) if base is None else s_log_(x) / s_log_(base), sqrt=s_sqrt,
    sin=s_sin, cos=s_cos, tan=UNARY['tan'], tanh=s_tanh, erf=s_erf_, erfc=lambda x: 1 - s_erf_(x), gamma=s_gamma,
    lgamma=s_gammaln, log1p=s_log1p, expm1=s_expm1, fabs=abs, pow=lambda a, b: a ** b,
    isnan=PRED1['isnan'], isinf=PRED1['isinf'], isfinite=PRED1['isfinite'], isclose=lambda a, b, rel_tol=1e-9,
    abs_tol=0.0: s_isclose(a, b, rel_tol, abs_tol),
    floor=lambda x: int(s_floor(x)) if not isinstance(x, Sym) else _ifloor(x),
    ceil=lambda x: int(math.ceil(x)) if not isinstance(x, Sym) else -_ifloor(-x),
    fsum=lambda l: sum(l), log2=UNARY['log2'], log10=UNARY['log10'],
    hypot=lambda *a: s_sqrt(sum(x * x for x in a)),
    dist=lambda a, b: s_sqrt(sum((x - y) * (x - y) for x, y in zip(a, b)))),
    lambda k: getattr(math, k))


def _ifloor(x):
    k = int(x)
    return k if bool(x >= k) else k - 1


def _jit(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


numba_shim = mkmod('numba', dict(jit=_jit, njit=_jit, vectorize=_jit, prange=range, float64=float, int64=int))


class _Anything:
    def __getattr__(self, k):
        return _Anything()

    def __call__(self, *a, **k):
        return _Anything()


plt_shim = mkmod('matplotlib', {}, lambda k: _Anything())
tqdm_shim = mkmod('tqdm', dict(tqdm=lambda x=None, *a, **k: x, trange=lambda *a, **k: range(*a)))


def _quad(*a, **k):
    hook = getattr(_engine[0], 'quad', None)
    if hook is not None:
        return hook(*a, **k)
    raise Unsupported('numerical integration')


integrate = mkmod('scipy.integrate', dict(quad=_quad, quad_vec=_quad, nquad=_quad, dblquad=_quad, trapezoid=f_trapz))


def _minimize(*a, **k):
    hook = getattr(_engine[0], 'minimize', None)
    if hook is not None:
        return hook(*a, **k)
    raise Unsupported('scipy.optimize')


optimize = mkmod('scipy.optimize', dict(minimize=_minimize, minimize_scalar=_minimize, root_scalar=_minimize,
                                        fmin=_minimize))
spatial = mkmod('scipy.spatial', dict(distance=distance))
scipy_shim = mkmod('scipy', dict(special=special, stats=stats, linalg=sp_linalg, integrate=integrate,
                                 optimize=optimize, spatial=spatial))


class _Pdb:
    @staticmethod
    def set_trace(*a, **k):
        raise Unsupported('pdb.set_trace reached')


def _hyper(*a, **k):
    hook = getattr(_engine[0], 'pingouin', None)
    if hook is not None:
        return hook(*a, **k)
    raise Unsupported('pingouin')


SHIMS = {
    'numpy': numpy_shim, 'numpy.linalg': linalg, 'numpy.random': RANDOM, 'math': math_shim, 'random': PYRANDOM,
    'scipy': scipy_shim, 'scipy.special': special, 'scipy.stats': stats, 'scipy.linalg': sp_linalg,
    'scipy.integrate': integrate, 'scipy.optimize': optimize, 'scipy.spatial': spatial,
    'scipy.spatial.distance': distance, 'numba': numba_shim, 'pdb': _Pdb(),
    'matplotlib': plt_shim, 'matplotlib.pyplot': plt_shim, 'tqdm': tqdm_shim,
    'pingouin': mkmod('pingouin', {}, lambda k: _hyper),
    'approxcdf': mkmod('approxcdf', {}, lambda k: (lambda *a, **kw: _mvn_approx(k, *a, **kw))),
}


def _mvn_approx(k, *a, **kw):
    hook = getattr(_engine[0], 'approxcdf', None)
    if hook is not None:
        return hook(k, *a, **kw)
    raise Unsupported('approxcdf')


# ------------------------------------------------------- builtins for lop
def s_sum(l, start=0):
    t = start
    for x in l:
        t = t + x
    return t


def s_round(x, n=None):
    if isinstance(x, Sym):
        if x.n.op == 'c':
            return round(float(x), n) if n is not None else round(float(x))
        raise Unsupported('round of a symbolic value')
    return round(x, n) if n is not None else round(x)


_real_import = builtins.__import__


def _lop_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split('.')[0]
        if name in SHIMS or root in SHIMS:
            if name in SHIMS:
                m = SHIMS[name]
            else:
                m = SHIMS[root]
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
            if fromlist:
                return m
            return SHIMS[root]
    return _real_import(name, globals, locals, fromlist, level)


def make_builtins(quiet=True):
    b = dict(vars(builtins))
    b['__import__'] = _lop_import
    b['float'] = SFloat
    b['sum'] = s_sum
    b['round'] = s_round
    if quiet:
        b['print'] = lambda *a, **k: None
    return b


class _Finder:
    """loads package lop from source, with the shimmed builtins"""

    def __init__(self, src):
        self.src = src
        self.builtins = make_builtins()

    def find_spec(self, name, path=None, target=None):
        if name != 'lop' and not name.startswith('lop.'):
            return None
        base = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return importlib.util.spec_from_file_location(
                name, os.path.join(base, '__init__.py'), loader=_Loader(name, os.path.join(base, '__init__.py'), self),
                submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=_Loader(name, base + '.py', self))
        return None


class _Loader:
    def __init__(self, name, path, finder):
        self.name, self.path, self.finder = name, path, finder

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path) as f:
            src = f.read()
        code = compile(src, self.path, 'exec', dont_inherit=True)
        mod.__dict__['__builtins__'] = self.finder.builtins
        exec(code, mod.__dict__)


def load_lop(src='/repo/src'):
    sys.meta_path.insert(0, _Finder(src))
    for k in [k for k in sys.modules if k == 'lop' or k.startswith('lop.')]:
        del sys.modules[k]
    import lop
    return lop
