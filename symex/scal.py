"""S: a symbolic python number, and helpers that work on S and on plain numbers alike."""
import math
from fractions import Fraction

import numpy as np

from . import elem as E
from . import explore
from .z3load import z3


def unwrap(x):
    if isinstance(x, S):
        return x.e
    return E.num(x)


def wrap(e):
    """element -> S (or a plain python value when it is known)"""
    if E.is_const(e):
        return E.to_float(e) if not isinstance(e, Fraction) else S(e)
    return S(e)


def _isnum(x):
    return isinstance(x, (int, float, bool, Fraction, np.number, np.bool_, S))


def _bin(f, rev=False):
    def op(self, other):
        if isinstance(other, np.ndarray) and other.ndim == 0:
            other = other.item()
        if not _isnum(other):
            return NotImplemented
        a, b = self.e, unwrap(other)
        return S(f(b, a) if rev else f(a, b))
    return op


def _logic(f):
    def op(self, other):
        if not _isnum(other):
            return NotImplemented
        return S(f(E.truth(self.e), E.truth(unwrap(other))))
    return op


class S:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    __add__ = _bin(E.add)
    __radd__ = _bin(E.add, True)
    __sub__ = _bin(E.sub)
    __rsub__ = _bin(E.sub, True)
    __mul__ = _bin(E.mul)
    __rmul__ = _bin(E.mul, True)

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _pydiv(self.e, unwrap(o))

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _pydiv(unwrap(o), self.e)

    __floordiv__ = _bin(E.floordiv)
    __rfloordiv__ = _bin(E.floordiv, True)
    __mod__ = _bin(E.mod)
    __rmod__ = _bin(E.mod, True)
    __pow__ = _bin(E.power)
    __rpow__ = _bin(E.power, True)
    __lt__ = _bin(E.lt)
    __le__ = _bin(E.le)
    __gt__ = _bin(E.lt, True)
    __ge__ = _bin(E.le, True)
    __and__ = _logic(E.b_and)
    __rand__ = __and__
    __or__ = _logic(E.b_or)
    __ror__ = __or__
    __xor__ = _logic(E.b_xor)

    def __eq__(self, o):
        if not _isnum(o):
            return NotImplemented
        return S(E.eq(self.e, unwrap(o)))

    def __ne__(self, o):
        if not _isnum(o):
            return NotImplemented
        return S(E.b_not(E.eq(self.e, unwrap(o))))

    def __neg__(self):
        return S(E.neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return S(E.eabs(self.e))

    def __invert__(self):
        return S(E.b_not(E.truth(self.e)))

    def __bool__(self):
        c = E.truth(self.e)
        if isinstance(c, bool):
            return c
        if explore.CUR is None:
            raise E.Unsupported("truth value of a symbolic number outside a path")
        return explore.CUR.decide(c)

    def __index__(self):
        e = E.arith(self.e)
        if isinstance(e, E.Ext) or (not E.is_int(e)):
            raise TypeError("symbolic real used as an index")
        return explore.CUR.choose(e)

    def __int__(self):
        e = E.trunc(self.e)
        return explore.CUR.choose(e)

    def __float__(self):
        if E.is_const(self.e):
            return float(E.to_float(self.e))
        raise E.Unsupported("a symbolic number would be concretised by float()")

    def __hash__(self):
        if E.is_const(self.e):
            return hash(E.to_float(self.e))
        if E.is_int(self.e):
            return hash(self.__index__())
        return hash(E.z(self.e) if not isinstance(self.e, E.Ext) else id(self))

    def __round__(self, n=None):
        return S(E.rnd(self.e))

    def __floor__(self):
        return S(E.floor(self.e))

    def __ceil__(self):
        return S(E.ceil(self.e))

    def __trunc__(self):
        return S(E.trunc(self.e))

    def __repr__(self):
        return f"S({self.e})"

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy ufuncs on object arrays look these up
    def exp(self):
        return S(E.exp(self.e))

    def log(self):
        return S(E.log(self.e))

    def sqrt(self):
        return S(E.sqrt(self.e))

    def tanh(self):
        return S(E.unary("TANH", self.e))

    def conjugate(self):
        return self

    def rint(self):
        return S(E.rnd(self.e))

    def floor(self):
        return S(E.floor(self.e))

    def item(self):
        return self

    def is_integer(self):
        return S(E.eq(self.e, E.floor(self.e)))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from . import tensor
        args, kwargs = tensor.lift_scalars(args), tensor.lift_scalars(kwargs or {})
        return func(*args, **kwargs)


def _spread(name):
    f = getattr(S, name)

    def op(self, other):
        if isinstance(other, np.ndarray) and other.ndim:
            out = np.empty(other.shape, object)
            for ix in np.ndindex(*other.shape):
                x = other[ix]
                out[ix] = f(self, x.item() if isinstance(x, np.generic) else x)
            return out
        return f(self, other)
    setattr(S, name, op)


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lt", "le", "gt", "ge", "eq", "ne", "and", "or"):
    for _p in ("", "r"):
        if f"__{_p}{_n}__" in S.__dict__:
            _spread(f"__{_p}{_n}__")


def _pydiv(a, b):
    """python semantics: division by zero raises"""
    z0 = explore.may(E.eq(b, 0))
    if z0 is not False:
        if (z0 is True) or explore.CUR.decide(z0):
            raise ZeroDivisionError("division by zero")
    return S(E.div(a, b))


# ------------------------------------------------------------------ generic helpers for specifications
def _sym(*xs):
    return any(isinstance(x, S) for x in xs)


def ite(c, a, b):
    if isinstance(c, S):
        return S(E.ite(E.truth(c.e), unwrap(a), unwrap(b)))
    return a if c else b


def smax(*xs):
    if len(xs) == 1:
        xs = tuple(xs[0])
    r = xs[0]
    for x in xs[1:]:
        r = S(E.emax(unwrap(r), unwrap(x))) if _sym(r, x) else max(r, x)
    return r


def smin(*xs):
    if len(xs) == 1:
        xs = tuple(xs[0])
    r = xs[0]
    for x in xs[1:]:
        r = S(E.emin(unwrap(r), unwrap(x))) if _sym(r, x) else min(r, x)
    return r


def sabs(x):
    return abs(x)


def clamp(x, lo, hi):
    return smin(smax(x, lo), hi)


def _symbolic(x):
    """during a symbolic run constants stay exact: exp(2) is the term EXP(2), not its nearest double"""
    return isinstance(x, S) or (explore.CUR is not None and isinstance(x, (int, float, Fraction)) and math.isfinite(x))


def sexp(x):
    if _symbolic(x):
        return S(E.exp(unwrap(x)))
    return math.exp(x) if x < 700 else math.inf


def slog(x):
    if _symbolic(x):
        return S(E.log(unwrap(x)))
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def ssqrt(x):
    if _symbolic(x):
        return S(E.sqrt(unwrap(x)))
    return math.sqrt(x)


def stanh(x):
    return S(E.unary("TANH", unwrap(x))) if _symbolic(x) else math.tanh(x)


def ssigmoid(x):
    return S(E.unary("SIGMOID", unwrap(x))) if _symbolic(x) else 1 / (1 + math.exp(-x))


def spow(a, b):
    if _sym(a, b):
        return S(E.power(unwrap(a), unwrap(b)))
    return a ** b


def sand(*xs):
    if _sym(*xs):
        return S(E.b_and(*[E.truth(unwrap(x)) for x in xs]))
    return all(bool(x) for x in xs)


def sor(*xs):
    if _sym(*xs):
        return S(E.b_or(*[E.truth(unwrap(x)) for x in xs]))
    return any(bool(x) for x in xs)


def snot(x):
    if isinstance(x, S):
        return S(E.b_not(E.truth(x.e)))
    return not x


def implies(a, b):
    return sor(snot(a), b)


def ssum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def sfloor(x):
    return S(E.floor(x.e)) if isinstance(x, S) else math.floor(x)
