"""Symbolic values seen by the program under check."""
import math
from fractions import Fraction

import numpy as np

from . import expr as X

_engine = [None]


def set_engine(e):
    _engine[0] = e


def eng():
    e = _engine[0]
    if e is None:
        raise X.Unsupported('symbolic value used outside a symbolic run')
    return e


def isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def node(x):
    if isinstance(x, Sym):
        return x.n
    if isinstance(x, SymBool):
        return X.ite(x.n, X.ONE, X.ZERO)
    if isinstance(x, (bool, np.bool_)):
        return X.ONE if x else X.ZERO
    if isinstance(x, (int, np.integer)):
        return X.const(Fraction(int(x)))
    if isinstance(x, (float, np.floating)):
        return X.from_float(float(x))
    if isinstance(x, Fraction):
        return X.const(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        return node(x.ravel()[0])
    raise X.Unsupported('not a scalar: %r' % type(x))


def bnode(c):
    if isinstance(c, SymBool):
        return c.n
    if isinstance(c, (bool, np.bool_)):
        return X.TRUE if c else X.FALSE
    if isinstance(c, np.ndarray) and c.size == 1:
        return bnode(c.ravel()[0])
    if isinstance(c, Sym):
        return X.bnot(X.eq0(c.n))
    if isinstance(c, (int, np.integer)):
        return X.TRUE if c else X.FALSE
    raise X.Unsupported('not a condition: %r' % type(c))


def simp(n):
    """constants come back as Python numbers where that is exact"""
    if n.op == 'c':
        f = n.args
        if f.denominator == 1:
            return float(f.numerator)
        v = float(f)
        if X.from_float(v).op == 'c' and X.from_float(v).args == f:
            return v
    return Sym(n)


def wrap(n):
    return Sym(n)


def wrapb(n):
    return SymBool(n)


def _scalar(o):
    return isinstance(o, (int, float, Sym, Fraction, np.integer, np.floating, SymBool, np.bool_)) \
        or (isinstance(o, np.ndarray) and o.ndim == 0)


class SymBool:
    __slots__ = ('n',)
    __array_ufunc__ = None

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return eng().branch(self.n)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return o & bool(self)
        return SymBool(X.band([self.n, bnode(o)]))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return o | bool(self)
        return SymBool(X.bor([self.n, bnode(o)]))
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(X.bnot(self.n))

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return int(bool(self))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __repr__(self):
        return 'SymBool(%s)' % X.show(self.n, 3)

    def __format__(self, f):
        return repr(self)

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return self

    def astype(self, t):
        return bool(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _arr0(s):
    a = np.empty((), dtype=object)
    a[()] = s
    return a


class Sym:
    """a real-valued term; behaves like a Python/NumPy float scalar"""
    __slots__ = ('n',)
    __array_ufunc__ = None
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, n):
        self.n = n

    # ---- arithmetic
    def _bin(self, o, f, name, rev=False):
        if _scalar(o):
            if isinstance(o, np.ndarray):
                o = o[()]
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return _infarith(self, float(o), name, rev)
            a, b = (node(o), self.n) if rev else (self.n, node(o))
            return Sym(f(a, b))
        if isinstance(o, np.ndarray):
            from .shim import elementwise
            return elementwise((lambda x: _pyop(name, x, self)) if rev else (lambda x: _pyop(name, self, x)), o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, X.add2, '+')

    def __radd__(self, o):
        return self._bin(o, X.add2, '+', True)

    def __sub__(self, o):
        return self._bin(o, X.sub2, '-')

    def __rsub__(self, o):
        return self._bin(o, X.sub2, '-', True)

    def __mul__(self, o):
        return self._bin(o, X.mul2, '*')

    def __rmul__(self, o):
        return self._bin(o, X.mul2, '*', True)

    def __truediv__(self, o):
        return self._bin(o, _div, '/')

    def __rtruediv__(self, o):
        return self._bin(o, _div, '/', True)

    def __pow__(self, o, mod=None):
        return self._bin(o, _pow, '**')

    def __rpow__(self, o):
        return self._bin(o, _pow, '**', True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: X.fun('floor', X.div2(a, b)), '//')

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: X.fun('floor', X.div2(a, b)), '//', True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: X.sub2(a, X.mul2(b, X.fun('floor', X.div2(a, b)))), '%')

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: X.sub2(a, X.mul2(b, X.fun('floor', X.div2(a, b)))), '%', True)

    def __neg__(self):
        return Sym(X.neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        n = self.n
        if n.op == 'c':
            return Sym(X.const(abs(n.args)))
        from .solve import surely_nonneg
        if surely_nonneg(n):
            return self
        return self if eng().branch(X.bnot(X.lt0(n))) else Sym(X.neg(n))

    # ---- comparisons
    def _cmp(self, o, f, name):
        if isinstance(o, Sym):
            return SymBool(f(X.sub2(self.n, o.n)))
        if _scalar(o):
            if isinstance(o, np.ndarray):
                o = o[()]
            if isinstance(o, (float, np.floating)):
                if o != o:
                    return name == '!='
                if math.isinf(o):
                    return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[name]
            return SymBool(f(X.sub2(self.n, node(o))))
        if isinstance(o, np.ndarray):
            from .shim import elementwise
            r = elementwise(lambda x: bool(_pyop(name, self, x)), o)
            return np.asarray(r).astype(bool).view(type(r)) if isinstance(r, np.ndarray) else r
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, X.lt0, '<')

    def __le__(self, o):
        return self._cmp(o, X.le0, '<=')

    def __gt__(self, o):
        return self._cmp(o, lambda e: X.lt0(X.neg(e)), '>')

    def __ge__(self, o):
        return self._cmp(o, lambda e: X.le0(X.neg(e)), '>=')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        return self._cmp(o, X.eq0, '==')

    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return True
        return self._cmp(o, lambda e: X.bnot(X.eq0(e)), '!=')

    def __hash__(self):
        return hash(self.n)

    def __bool__(self):
        return eng().branch(X.bnot(X.eq0(self.n)))

    # ---- conversions
    def __float__(self):
        if self.n.op == 'c':
            return float(self.n.args)
        raise X.Unsupported('a symbolic value was converted to a machine float')

    def __int__(self):
        if self.n.op == 'c':
            return int(self.n.args)
        # int(): fork over the integer part within a small window
        return eng_int(self.n)

    def __trunc__(self):
        return self.__int__()

    def __index__(self):
        if self.n.op == 'c' and self.n.args.denominator == 1:
            return int(self.n.args)
        raise TypeError('symbolic real used as an index')

    def __round__(self, k=0):
        raise X.Unsupported('round of a symbolic value')

    def __repr__(self):
        return 'Sym(%s)' % X.show(self.n, 3)

    def __format__(self, f):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---- ndarray-scalar lookalikes
    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        if t in (bool, np.bool_):
            return bool(self)
        if np.dtype(t).kind in 'iu':
            return int(self)
        return self

    def flatten(self):
        from .shim import sarr
        return sarr([self])
    ravel = flatten

    def reshape(self, *sh):
        from .shim import sarr
        return sarr([self]).reshape(*sh)

    def sum(self, *a, **k):
        return self
    mean = max = min = prod = squeeze = transpose = sum

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        return np.dtype(object)

    def is_integer(self):
        raise X.Unsupported('is_integer on a symbolic value')

    # methods numpy calls on object elements
    def conjugate(self):
        return self

    def sqrt(self):
        return Sym(X.sqrt(self.n))

    def exp(self):
        return Sym(X.fun('exp', self.n))

    def log(self):
        return Sym(X.fun('log', self.n))

    def sin(self):
        return Sym(X.fun('sin', self.n))

    def cos(self):
        return Sym(X.fun('cos', self.n))

    def tanh(self):
        return Sym(X.fun('tanh', self.n))

    def rint(self):
        return self.__round__()

    def square(self):
        return self * self


def eng_int(n):
    e = eng()
    t = n
    for k in range(0, 40):
        for s in ((k, -k) if k else (0,)):
            # int() truncates toward zero
            if s > 0:
                c = X.band([X.le0(X.sub2(X.const(Fraction(s)), t)), X.lt0(X.sub2(t, X.const(Fraction(s + 1))))])
            elif s < 0:
                c = X.band([X.le0(X.sub2(t, X.const(Fraction(s)))), X.lt0(X.sub2(X.const(Fraction(s - 1)), t))])
            else:
                c = X.band([X.lt0(X.sub2(X.const(Fraction(-1)), t)), X.lt0(X.sub2(t, X.ONE))])
            if e.branch(c):
                return s
    raise X.Unsupported('int() of an unbounded symbolic value')


def _pyop(name, a, b):
    if name == '+':
        return a + b
    if name == '-':
        return a - b
    if name == '*':
        return a * b
    if name == '/':
        return a / b
    if name == '**':
        return a ** b
    if name == '//':
        return a // b
    if name == '%':
        return a % b
    if name == '<':
        return a < b
    if name == '<=':
        return a <= b
    if name == '>':
        return a > b
    if name == '>=':
        return a >= b
    if name == '==':
        return a == b
    if name == '!=':
        return a != b
    raise AssertionError(name)


def _infarith(s, inf, name, rev):
    if inf != inf:
        return math.nan
    if name in ('+',):
        return inf
    if name == '-':
        return inf if rev else -inf
    if name == '/' and not rev:
        return 0.0
    if name == '*':
        if eng().branch(X.eq0(s.n)):
            return math.nan
        return -inf if eng().branch(X.lt0(s.n)) else inf
    if name == '/' and rev:
        if eng().branch(X.lt0(s.n)):
            return -inf
        return inf
    raise X.Unsupported('arithmetic with infinity: ' + name)


class DivZero(Exception):
    pass


def _div(a, b):
    if b.op == 'c' and b.args == 0:
        raise X.Unsupported('division by the constant 0 (IEEE nan/inf)')
    e = _engine[0]
    if e is not None and b.op != 'c':
        e_div = getattr(e, 'on_div', None)
        if e_div is not None:
            e_div(b)
    return X.div2(a, b)


def _pow(a, b):
    if b.op == 'c':
        f = b.args
        if f.denominator == 1 and abs(f.numerator) <= 12:
            return X.powi(a, f.numerator)
        if f.denominator == 2 and abs(f.numerator) <= 13:
            r = X.sqrt(a)
            return X.powi(r, f.numerator)
    if a.op == 'c' and a.args > 0:
        return X.fun('exp', X.mul2(b, X.fun('log', a)))
    return X.fun('exp', X.mul2(b, X.fun('log', a)))
