"""Built-in functions of Python, `math` and numpy that would concretise (or needlessly fork on) a symbolic number.
While the interpreter is on, the modules under test see these in their place; plain numbers go to the originals."""
import builtins
import contextlib
import math
import sys

import numpy as np

from . import elem as E
from .scal import S, sexp, slog, smax, smin, ssqrt, stanh, unwrap


def _plain(x):
    """a tensor of one element counts as its element"""
    if isinstance(x, S):
        return x
    if hasattr(x, "item") and getattr(x, "_d", None) is not None:
        v = x.item()
        return v
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return x.reshape(-1)[0]
    return x


class _Like(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class Float(builtins.float, metaclass=_Like):
    def __new__(cls, x=0.0):
        v = _plain(x)
        if isinstance(v, S):
            return S(E.arith(v.e) if not isinstance(v.e, E.Ext) else v.e)
        return builtins.float(v)


def _extreme(real, sym):
    def f(*xs, **kw):
        if not kw:
            ys = xs if len(xs) > 1 else tuple(xs[0]) if isinstance(xs[0], (list, tuple)) or hasattr(xs[0], "__next__") else None
            if ys is not None:
                if any(isinstance(y, S) for y in ys) and not any(hasattr(y, "shape") and not isinstance(y, S) for y in ys):
                    return sym(*ys) if len(ys) > 1 else ys[0]
                return real(*ys) if len(ys) > 1 else real(ys)
        return real(*xs, **kw)
    return f


class Math:
    def __getattribute__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real
        mine = SYM.get(n)

        def f(*a, **k):
            a = [_plain(x) for x in a]
            if mine is not None and any(isinstance(x, S) for x in a):
                return mine(*a, **k)
            if n in ("prod", "fsum") and a and isinstance(a[0], (list, tuple)) and any(isinstance(x, S) for x in a[0]):
                r = 1 if n == "prod" else 0
                for x in a[0]:
                    r = r * x if n == "prod" else r + x
                return r
            return real(*a, **k)
        return f


SYM = {
    "exp": sexp, "sqrt": ssqrt, "tanh": stanh, "log": lambda x, *b: slog(x) / slog(b[0]) if b else slog(x),
    "log1p": lambda x: slog(1 + x), "expm1": lambda x: sexp(x) - 1, "fabs": abs, "pow": lambda a, b: a ** b,
    "isnan": lambda x: S(E.isnan(x.e)) if isinstance(x.e, E.Ext) else False,
    "isinf": lambda x: S(E.isinf(x.e)) if isinstance(x.e, E.Ext) else False,
    "isfinite": lambda x: S(E.finite(x.e)) if isinstance(x.e, E.Ext) else True,
    "floor": lambda x: S(E.floor(unwrap(x))), "ceil": lambda x: S(E.ceil(unwrap(x))), "trunc": lambda x: S(E.trunc(unwrap(x))),
    "copysign": lambda x, y: S(E.ite(E.lt(unwrap(y), 0), E.neg(E.eabs(unwrap(x))), E.eabs(unwrap(x)))),
    "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= smax(rel_tol * smax(abs(a), abs(b)), abs_tol),
}


class _Ufunc:
    """a numpy ufunc that merges instead of forking on symbolic elements"""

    def __init__(self, real, sym):
        self.real, self.sym = real, np.frompyfunc(sym, 2, 1)

    def __call__(self, a, b, *rest, **kw):
        if not rest and not kw and any(isinstance(x, S) or (isinstance(x, np.ndarray) and x.dtype == object) for x in (a, b)):
            return self.sym(a, b)
        return self.real(a, b, *rest, **kw)

    def __getattr__(self, n):
        return getattr(self.real, n)


def _clip(a, lo=None, hi=None, **kw):
    if not kw and any(isinstance(x, S) or (isinstance(x, np.ndarray) and x.dtype == object) for x in (a, lo, hi)):
        r = a
        if lo is not None:
            r = np.maximum(r, lo)
        return np.minimum(r, hi) if hi is not None else r
    return REAL_CLIP(a, lo, hi, **kw)


REAL_CLIP = np.clip
FLOAT, MAX, MIN, MATH = Float, _extreme(builtins.max, smax), _extreme(builtins.min, smin), Math()
NP_MAX, NP_MIN = _Ufunc(np.maximum, smax), _Ufunc(np.minimum, smin)


@contextlib.contextmanager
def symbolic_python(prefix="reagent"):
    undo = []
    for name, m in list(sys.modules.items()):
        if m is None or not (name == prefix or name.startswith(prefix + ".")):
            continue
        g = m.__dict__
        for k, v in (("float", FLOAT), ("max", MAX), ("min", MIN)):
            if k not in g:
                g[k] = v
                undo.append((g, k, None))
        if g.get("math") is math:
            g["math"] = MATH
            undo.append((g, "math", math))
    nm, nn = np.maximum, np.minimum
    np.maximum, np.minimum, np.clip = NP_MAX, NP_MIN, _clip
    try:
        yield
    finally:
        np.maximum, np.minimum, np.clip = nm, nn, REAL_CLIP
        for g, k, v in undo:
            if v is None:
                g.pop(k, None)
            else:
                g[k] = v
