"""Symbolic torch tensors: a wrapper subclass whose elements are terms (see elem.py).

Every ATen operator that reaches the dispatcher below autograd is interpreted here, so any spelling of
a computation in torch's python API (functional, method, in-place, view, autograd backward) lowers to
this set.  Shapes, strides, dtypes and argument errors come from running the operator on meta tensors.
"""
from fractions import Fraction
import contextlib
import math

import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten

from . import elem as E
from . import explore
from .elem import Unsupported
from .scal import S, unwrap
from .z3load import z3

aten = torch.ops.aten
FLOATS = (torch.float32, torch.float64, torch.float16, torch.bfloat16)
INTS = (torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8)


def kind(dtype):
    if dtype == torch.bool:
        return "B"
    if dtype in FLOATS:
        return "R"
    if dtype in INTS:
        return "I"
    raise Unsupported(f"dtype {dtype}")


def cast_elem(e, k):
    if k == "B":
        return E.truth(e)
    if k == "I":
        if E.is_bool(e):
            return E.arith(e)
        return e if E.is_int(e) else E.trunc(e)
    return E.arith(e) if not isinstance(e, E.Ext) else e


def objarr(shape, fill=0):
    a = np.empty(tuple(shape), dtype=object)
    a.fill(fill)
    return a


def amap(f, *arrs):
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(bs[0].shape, dtype=object)
    of = out.reshape(-1)
    if out.size:
        fl = [b.reshape(-1) for b in bs]
        for i in range(of.size):
            of[i] = f(*[b[i] for b in fl])
    return out


def cast(arr, dtype):
    k = kind(dtype)
    return amap(lambda e: cast_elem(e, k), arr)


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, arr, dtype, requires_grad=False):
        st = tuple(s // 8 for s in arr.strides)
        return torch.Tensor._make_wrapper_subclass(
            cls, arr.shape, strides=st, dtype=dtype, device="cpu", requires_grad=requires_grad)

    def __init__(self, arr, dtype=None, requires_grad=False):
        if dtype is not None:  # torch.Tensor(list) runs __init__ again on what it got
            self._d = arr

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    # --- python-level concretisation points
    def item(self):
        if self.numel() != 1:
            raise RuntimeError(f"a Tensor with {self.numel()} elements cannot be converted to Scalar")
        return pyval(self._d.reshape(-1)[0], self.dtype)

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                return pyval(a.item() if isinstance(a, np.ndarray) else a, self.dtype)
            return [rec(x) if isinstance(x, np.ndarray) else pyval(x, self.dtype) for x in a]
        return rec(self._d)

    def __bool__(self):
        return bool(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        v = self.item()
        return v.__index__() if isinstance(v, S) else int(v)

    def __float__(self):
        return float(self.item())

    def numpy(self, *a, **k):
        if self.requires_grad:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad.")
        out = np.empty(self._d.shape, dtype=object)
        for i in np.ndindex(*self._d.shape):
            out[i] = pyval(self._d[i], self.dtype)
        if all(not isinstance(v, S) for v in out.reshape(-1)):
            return out.astype({torch.float32: np.float32, torch.float64: np.float64, torch.int64: np.int64,
                               torch.int32: np.int32, torch.bool: np.bool_, torch.uint8: np.uint8,
                               torch.int8: np.int8, torch.int16: np.int16}[self.dtype])
        return out

    def __array__(self, dtype=None, copy=None):
        return self.numpy()

    def data_ptr(self):
        return id(self._d)

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        t = SymTensor(self._d.copy(), self.dtype, self.requires_grad)
        for k, v in self.__dict__.items():
            if k != "_d":
                setattr(t, k, v)
        memo[id(self)] = t
        return t

    def __repr__(self, *a, **k):
        return f"SymTensor({self._d.tolist()}, dtype={self.dtype})"

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return id(self)

    def __reduce_ex__(self, proto):
        if all(E.is_const(e) for e in self._d.reshape(-1)):
            return _thawed, (self._d.copy(), self.dtype)
        raise Unsupported("serialising a symbolic tensor")


def _thawed(d, dtype):
    return SymTensor(d, dtype)


def pyval(e, dtype):
    if E.is_const(e):
        if isinstance(e, Fraction):
            return S(e)
        v = E.to_float(e)
        if dtype in FLOATS and isinstance(v, (int, bool)):
            return float(v)
        if dtype == torch.bool:
            return bool(v)
        return v
    return S(e)


def sym(arr, dtype=torch.float32, requires_grad=False):
    if not isinstance(arr, np.ndarray) or arr.dtype != object:
        src = np.asarray(arr, dtype=object)
        a = np.empty(src.shape, dtype=object)
        for i in np.ndindex(*src.shape):
            a[i] = unwrap(src[i])
        arr = a
    else:
        a = np.empty(arr.shape, dtype=object)
        for i in np.ndindex(*arr.shape):
            v = arr[i]
            a[i] = v if isinstance(v, (E.Ext, z3.ExprRef)) else unwrap(v)
        arr = a
    t = SymTensor(cast(arr, dtype), dtype)
    if requires_grad:
        t.requires_grad_(True)
    return t


def scalar_tensor(s):
    e = s.e
    dt = torch.bool if E.is_bool(e) else torch.int64 if E.is_int(e) else torch.get_default_dtype()
    a = np.empty((), dtype=object)
    a[()] = e
    return SymTensor(a, dt)


def lift_scalars(x):
    return tree_map(lambda v: scalar_tensor(v) if isinstance(v, S) else v, x)


def lift(t):
    """concrete tensor -> element array"""
    if isinstance(t, SymTensor):
        return t._d
    with no_modes():
        v = t.detach().cpu()
        n = v.to(torch.float32).numpy() if v.dtype in (torch.float16, torch.bfloat16) else v.numpy()
        a = np.empty(n.shape, dtype=object)
        if n.size:
            af, nf = a.reshape(-1), n.reshape(-1)
            for i in range(nf.size):
                af[i] = E.num(nf[i])
        return a


def to_sym(t):
    return t if isinstance(t, SymTensor) else SymTensor(lift(t), t.dtype)


@contextlib.contextmanager
def no_modes():
    with torch._C._DisableTorchDispatch(), torch._C.DisableTorchFunction():
        yield


# ------------------------------------------------------------------ dispatch
OPS = {}
VIEWS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


def view(*names):
    def deco(f):
        for n in names:
            VIEWS[n] = f
        return f
    return deco


def meta_of(x):
    if isinstance(x, torch.Tensor):
        if x.device.type == "meta":
            return x
        return torch.empty_strided(x.shape, x.stride(), dtype=x.dtype, device="meta")
    if isinstance(x, torch.device):
        return torch.device("meta")
    return x


def run_meta(func, args, kwargs):
    with no_modes():
        ma = tree_map(meta_of, args)
        mk = {k: (torch.device("meta") if k == "device" else tree_map(meta_of, v)) for k, v in kwargs.items()}
        if "layout" in mk and mk["layout"] is None:
            pass
        return func(*ma, **mk)


def _is_sym_any(args, kwargs):
    flat, _ = tree_flatten((args, kwargs))
    return any(isinstance(x, SymTensor) for x in flat)


def dispatch(func, args, kwargs):
    name = func.overloadpacket.__name__
    ns = func.namespace
    if ns == "profiler":
        with no_modes():
            return func(*args, **kwargs)
    if ns not in ("aten", "prims"):
        raise Unsupported(f"operator {func}")
    if "out" in kwargs and kwargs["out"] is not None:
        raise Unsupported(f"out= variant of {func}")
    if name in RANDOM:
        return RANDOM[name](func, args, kwargs)
    if name in VIEWS:
        t = to_sym(args[0]) if isinstance(args[0], torch.Tensor) else args[0]
        r = VIEWS[name](t._d, *args[1:], **kwargs)
        mk = lambda a: SymTensor(a, t.dtype)
        return [mk(a) for a in r] if isinstance(r, list) else mk(r)
    inplace = name.endswith("_") and not name.endswith("__") and func._schema.is_mutable
    base = name[:-1] if inplace else name
    if name in SPECIAL:
        return SPECIAL[name](func, args, kwargs)
    if not _is_sym_any(args, kwargs) and not any(
            isinstance(x, torch.Tensor) for x in tree_flatten((args, kwargs))[0]):
        # factory: run for real, then lift
        with no_modes():
            r = func(*args, **kwargs)
        return tree_map(lambda t: to_sym(t) if isinstance(t, torch.Tensor) else t, r)
    if inplace and not isinstance(args[0], SymTensor):
        # in-place on a tensor that existed before the interpreter was switched on
        t0 = args[0]
        r = dispatch(func, (to_sym(t0),) + tuple(args[1:]), kwargs)
        vals = [v for v in r._d.reshape(-1)]
        if not all(E.is_const(v) for v in vals):
            raise Unsupported(f"{func} would store symbolic values in a pre-existing concrete tensor")
        with no_modes():
            t0.detach().copy_(torch.tensor([E.to_float(v) for v in vals]).reshape(t0.shape).to(t0.dtype))
        return t0
    f = OPS.get(base) or OPS.get(name)
    if f is None:
        return fallback(func, args, kwargs, inplace)
    if inplace:
        self = args[0]
        if getattr(f, "meta", True):
            run_meta(func, args, kwargs)
        r = f(*args, **kwargs)
        if r is not self._d:
            self._d[...] = cast(np.broadcast_to(r, self._d.shape), self.dtype)
        return self
    if getattr(f, "meta", True):
        m = run_meta(func, args, kwargs)
        r = f(*args, **kwargs)
        if isinstance(m, (tuple, list)):
            out = []
            for mi, ri in zip(m, r):
                out.append(SymTensor(shape_as(cast(ri, mi.dtype), mi), mi.dtype) if isinstance(mi, torch.Tensor) else ri)
            return type(m)(out) if isinstance(m, list) else tuple(out)
        return SymTensor(shape_as(cast(r, m.dtype), m), m.dtype)
    return f(*args, **kwargs)


def shape_as(a, m):
    if tuple(a.shape) != tuple(m.shape):
        if a.size != m.numel():
            raise Unsupported(f"shape mismatch {a.shape} vs {tuple(m.shape)}")
        a = a.reshape(tuple(m.shape))
    return np.ascontiguousarray(a) if a.ndim else a


_DECOMP = None


def fallback(func, args, kwargs, inplace):
    global _DECOMP
    if _DECOMP is None:
        import importlib
        importlib.import_module("torch._refs")
        _DECOMP = importlib.import_module("torch._decomp").decomposition_table
    d = _DECOMP.get(func)
    if d is not None:
        return d(*args, **kwargs)
    if func.has_kernel_for_dispatch_key(torch._C.DispatchKey.CompositeImplicitAutograd):
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    if inplace:
        # X_ -> X followed by a copy
        pk = getattr(torch.ops.aten, func.overloadpacket.__name__[:-1], None)
        if pk is not None and func._overloadname in pk.overloads():
            r = dispatch(getattr(pk, func._overloadname), args, kwargs)
            if tuple(r.shape) != tuple(args[0].shape):
                raise Unsupported(f"{func} changes the shape in place")
            args[0]._d[...] = cast(r._d, args[0].dtype)
            return args[0]
    r = NotImplemented if inplace else on_constants(func, args, kwargs)
    if r is not NotImplemented:
        return r
    raise Unsupported(f"operator {func}")


def on_constants(func, args, kwargs):
    """an operator without symbolic operands is run by torch itself"""
    def real(t):
        if not isinstance(t, SymTensor):
            return t
        return torch.tensor([E.to_float(v) for v in t._d.reshape(-1)], dtype=torch.float64).reshape(tuple(t.shape)).to(t.dtype)
    flat, _ = tree_flatten((args, kwargs))
    if any(isinstance(t, SymTensor) and not all(E.is_const(v) for v in t._d.reshape(-1)) for t in flat):
        return NotImplemented
    with no_modes():
        r = func(*tree_map(real, args), **tree_map(real, kwargs))
        return tree_map(lambda t: to_sym(t) if isinstance(t, torch.Tensor) else t, r)


def nometa(f):
    f.meta = False
    return f


def A(x):
    """argument -> element array"""
    if isinstance(x, torch.Tensor):
        return lift(x)
    a = np.empty((), dtype=object)
    a[()] = unwrap(x)
    return a


def _dims(dim, nd, default_all=True):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0 and default_all):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(d % nd if nd else 0 for d in dim)


def reduce_dims(a, dims, keepdim, f):
    """f(list of elements) -> element"""
    nd = a.ndim
    if nd == 0:
        r = objarr(())
        r[()] = f([a[()]])
        return r
    keep = [d for d in range(nd) if d not in dims]
    b = a.transpose(keep + list(dims)).reshape([a.shape[d] for d in keep] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = f(list(b[i]))
    if keepdim:
        out = out.reshape([1 if d in dims else a.shape[d] for d in range(nd)])
    return out


def fold(f, init=None):
    def g(xs):
        if not xs:
            return init
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


_sum = fold(E.add, 0)
_prod = fold(E.mul, 1)


# --- pointwise
def pw(name, f):
    OPS[name] = lambda *args, **kw: amap(f, *[A(x) for x in args])


@op("add")
def _(a, b, alpha=1):
    al = unwrap(alpha)
    return amap(lambda x, y: E.add(x, E.mul(al, y)) if not (isinstance(al, int) and al == 1) else E.add(x, y), A(a), A(b))


@op("sub", "subtract")
def _(a, b, alpha=1):
    al = unwrap(alpha)
    return amap(lambda x, y: E.sub(x, E.mul(al, y)), A(a), A(b))


@op("rsub")
def _(a, b, alpha=1):
    al = unwrap(alpha)
    return amap(lambda x, y: E.sub(y, E.mul(al, x)), A(a), A(b))


pw("mul", lambda x, y: E.b_and(x, y) if E.is_bool(x) and E.is_bool(y) else E.mul(x, y))


@op("div", "true_divide", "divide")
def _(a, b, rounding_mode=None):
    if rounding_mode == "floor":
        return amap(E.floordiv, A(a), A(b))
    if rounding_mode == "trunc":
        return amap(lambda x, y: E.trunc(E.div(x, y)), A(a), A(b))
    return amap(E.div, A(a), A(b))


pw("floor_divide", E.floordiv)
pw("remainder", E.mod)
pw("fmod", lambda x, y: E.sub(x, E.mul(y, E.trunc(E.div(x, y)))))
pw("neg", E.neg)
pw("abs", E.eabs)
pw("sign", E.sign)
pw("sgn", E.sign)
pw("reciprocal", lambda x: E.div(1, x))
pw("exp", E.exp)
pw("log", E.log)
pw("log1p", lambda x: E.log(E.add(x, 1)))
pw("log2", lambda x: E.log_base(x, 2, math.log2))
pw("log10", lambda x: E.log_base(x, 10, math.log10))
pw("expm1", lambda x: E.sub(E.exp(x), 1))
pw("sqrt", E.sqrt)
pw("rsqrt", lambda x: E.div(1, E.sqrt(x)))
pw("square", lambda x: E.mul(x, x))
pw("tanh", lambda x: E.unary("TANH", x))
pw("atanh", lambda x: E.unary("ATANH", x))
pw("sigmoid", lambda x: E.unary("SIGMOID", x))
pw("erf", lambda x: E.unary("ERF", x))
pw("lgamma", lambda x: E.unary("LGAMMA", x))
pw("sin", lambda x: E.unary("SIN", x))
pw("cos", lambda x: E.unary("COS", x))
pw("log_sigmoid", lambda x: E.log(E.unary("SIGMOID", x)))
pw("floor", E.floor)
pw("ceil", E.ceil)
pw("trunc", E.trunc)
pw("round", E.rnd)
pw("pow", E.power)
pw("relu", lambda x: E.emax(x, 0))
pw("maximum", E.emax)
pw("minimum", E.emin)
pw("fmax", lambda x, y: E.ite(E.isnan(x), y, E.ite(E.isnan(y), x, E.emax(x, y))))
pw("fmin", lambda x, y: E.ite(E.isnan(x), y, E.ite(E.isnan(y), x, E.emin(x, y))))
pw("hypot", lambda x, y: E.sqrt(E.add(E.mul(x, x), E.mul(y, y))))
pw("signbit", lambda x: E.lt(x, 0))
pw("copysign", lambda x, y: E.ite(E.lt(y, 0), E.neg(E.eabs(x)), E.eabs(x)))
pw("eq", E.eq)
pw("ne", lambda x, y: E.b_not(E.eq(x, y)))
pw("lt", E.lt)
pw("le", E.le)
pw("gt", lambda x, y: E.lt(y, x))
pw("ge", lambda x, y: E.le(y, x))
pw("logical_not", lambda x: E.b_not(E.truth(x)))
pw("logical_and", lambda x, y: E.b_and(E.truth(x), E.truth(y)))
pw("logical_or", lambda x, y: E.b_or(E.truth(x), E.truth(y)))
pw("logical_xor", lambda x, y: E.b_xor(E.truth(x), E.truth(y)))
pw("isnan", E.isnan)
pw("isinf", E.isinf)
pw("isposinf", lambda x: x.p if isinstance(x, E.Ext) else False)
pw("isneginf", lambda x: x.n if isinstance(x, E.Ext) else False)
pw("xlogy", lambda x, y: E.ite(E.eq(x, 0), 0, E.mul(x, E.log(y))))


def _bitop(fb):
    def f(x, y):
        if E.is_bool(x) and E.is_bool(y):
            return fb(x, y)
        if isinstance(x, int) and isinstance(y, int):
            return {E.b_and: x & y, E.b_or: x | y, E.b_xor: x ^ y}[fb]
        bx, by = _as01(x), _as01(y)
        if bx is not None and by is not None:
            return E.ite(fb(bx, by), 1, 0)
        raise Unsupported("bitwise operator on symbolic integers")
    return f


def _as01(e):
    """the condition behind an integer that is 1 or 0"""
    if E.is_bool(e):
        return e
    if isinstance(e, int):
        return {0: False, 1: True}.get(e)
    if z3.is_expr(e) and z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)):
        v = e.arg(1).as_long(), e.arg(2).as_long()
        return e.arg(0) if v == (1, 0) else z3.Not(e.arg(0)) if v == (0, 1) else None
    if z3.is_expr(e) and z3.is_arith(e) and not explore.CUR.may(z3.Not(z3.Or(e == 0, e == 1))):
        return E.eq(e, 1)
    return None


for _n, _f in (("and", E.b_and), ("or", E.b_or), ("xor", E.b_xor)):
    pw(f"bitwise_{_n}", _bitop(_f))
    pw(f"__{_n}__", _bitop(_f))
pw("bitwise_not", lambda x: E.b_not(x) if E.is_bool(x) else E.sub(-1, x))


@op("where")
def _(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    return amap(lambda c, x, y: E.ite(E.truth(c), x, y), A(c), A(a), A(b))


@op("clamp", "clip")
def _(x, min=None, max=None):
    r = A(x)
    if min is not None:
        r = amap(E.emax, r, A(min))
    if max is not None:
        r = amap(E.emin, r, A(max))
    return r


OPS["clamp_min"] = lambda x, m: amap(E.emax, A(x), A(m))
OPS["clamp_max"] = lambda x, m: amap(E.emin, A(x), A(m))
OPS["hardtanh"] = lambda x, lo=-1, hi=1: amap(lambda v: E.emin(E.emax(v, unwrap(lo)), unwrap(hi)), A(x))
OPS["leaky_relu"] = lambda x, s=0.01: amap(lambda v: E.ite(E.lt(0, v), v, E.mul(unwrap(s), v)), A(x))


@op("nan_to_num")
def _(x, nan=None, posinf=None, neginf=None):
    big = Fraction(float(np.finfo(np.float32).max))
    nv = unwrap(0.0 if nan is None else nan)
    pv = big if posinf is None else unwrap(posinf)
    gv = -big if neginf is None else unwrap(neginf)

    def f(e):
        if not isinstance(e, E.Ext):
            return e
        return E.ite(e.x, nv, E.ite(e.p, pv, E.ite(e.n, gv, e.val)))
    return amap(f, A(x))


@op("lerp")
def _(a, b, w):
    return amap(lambda x, y, t: E.add(x, E.mul(t, E.sub(y, x))), A(a), A(b), A(w))


@op("addcmul")
def _(s, a, b, value=1):
    v = unwrap(value)
    return amap(lambda s, x, y: E.add(s, E.mul(v, E.mul(x, y))), A(s), A(a), A(b))


@op("addcdiv")
def _(s, a, b, value=1):
    v = unwrap(value)
    return amap(lambda s, x, y: E.add(s, E.div(E.mul(v, x), y)), A(s), A(a), A(b))


@op("_to_copy", "clone", "alias_copy", "lift_fresh_copy", "contiguous")
def _(x, *a, **k):
    return A(x).copy()


@op("to")
def _(x, *a, **k):
    return A(x).copy()


@op("copy")
def _(dst, src, non_blocking=False):
    return np.broadcast_to(A(src), dst.shape)


@op("fill")
def _(x, v):
    return np.broadcast_to(A(v), x.shape)


OPS["zero"] = lambda x: objarr(x.shape, 0)


def _like(fill):
    def f(x, *a, **k):
        return objarr(x.shape, fill)
    return f


OPS["zeros_like"] = _like(0)
OPS["ones_like"] = _like(1)
OPS["empty_like"] = _like(0)
OPS["full_like"] = lambda x, v, **k: objarr(x.shape, unwrap(v))
OPS["new_zeros"] = lambda x, size, **k: objarr(size, 0)
OPS["new_ones"] = lambda x, size, **k: objarr(size, 1)
OPS["new_empty"] = lambda x, size, **k: objarr(size, 0)
OPS["new_full"] = lambda x, size, v, **k: objarr(size, unwrap(v))
OPS["new_empty_strided"] = lambda x, size, stride, **k: objarr(size, 0)


# --- reductions
@op("sum")
def _(x, dim=None, keepdim=False, dtype=None):
    a = A(x)
    return reduce_dims(a, _dims(dim, a.ndim), keepdim, _sum)


@op("nansum")
def _(x, dim=None, keepdim=False, dtype=None):
    a = amap(lambda e: E.ite(E.isnan(e), 0, e), A(x))
    return reduce_dims(a, _dims(dim, a.ndim), keepdim, _sum)


@op("mean")
def _(x, dim=None, keepdim=False, dtype=None):
    a = A(x)
    return reduce_dims(a, _dims(dim, a.ndim), keepdim,
                       lambda xs: E.div(_sum(xs), len(xs)) if xs else E.NAN)


@op("prod")
def _(x, dim=None, keepdim=False, dtype=None):
    a = A(x)
    return reduce_dims(a, _dims(dim, a.ndim), keepdim, _prod)


def _var(xs, c):
    n = len(xs)
    m = E.div(_sum(xs), n)
    ss = _sum([E.mul(E.sub(v, m), E.sub(v, m)) for v in xs])
    return E.div(ss, n - c) if n - c > 0 else E.NAN


@op("var")
def _(x, dim=None, unbiased=None, correction=None, keepdim=False):
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    c = 1 if correction is None else correction
    if unbiased is not None:
        c = 1 if unbiased else 0
    a = A(x)
    return reduce_dims(a, _dims(dim, a.ndim), keepdim, lambda xs: _var(xs, c))


@op("std")
def _(x, dim=None, unbiased=None, correction=None, keepdim=False):
    return amap(E.sqrt, OPS["var"](x, dim, unbiased=unbiased, correction=correction, keepdim=keepdim))


@op("any")
def _(x, dim=None, keepdim=False):
    a = A(x)
    return reduce_dims(a, _dims(dim, a.ndim), keepdim, lambda xs: E.b_or(*[E.truth(v) for v in xs]))


@op("all")
def _(x, dim=None, keepdim=False):
    a = A(x)
    return reduce_dims(a, _dims(dim, a.ndim), keepdim, lambda xs: E.b_and(*[E.truth(v) for v in xs]))


def _best(xs, better):
    """(value, index) of the best element; the first one wins ties; nan wins"""
    v, i = xs[0], 0
    for j in range(1, len(xs)):
        c = better(xs[j], v)
        if isinstance(xs[j], E.Ext) or isinstance(v, E.Ext):
            c = E.b_or(E.b_and(c, E.b_not(E.isnan(v))), E.b_and(E.isnan(xs[j]), E.b_not(E.isnan(v))))
        v = E.ite(c, xs[j], v)
        i = E.ite(c, j, i)
    return v, i


_gt = lambda x, y: E.lt(y, x)


def _minmax(better):
    def f(x, *args, **kw):
        args = list(args)
        if (args and isinstance(args[0], torch.Tensor)) or "other" in kw:
            o = args[0] if args else kw["other"]
            return amap(E.emax if better is _gt else E.emin, A(x), A(o))
        dim = args[0] if args else kw.get("dim")
        keep = args[1] if len(args) > 1 else kw.get("keepdim", False)
        a = A(x)
        if dim is None:
            if a.size == 0:
                raise RuntimeError("max(): Expected reduction dim to be specified for input.numel() == 0.")
            return reduce_dims(a, _dims(None, a.ndim), False, lambda xs: _best(xs, better)[0])
        d = _dims(dim, a.ndim)
        return (reduce_dims(a, d, keep, lambda xs: _best(xs, better)[0]),
                reduce_dims(a, d, keep, lambda xs: _best(xs, better)[1]))
    return f


OPS["max"] = _minmax(_gt)
OPS["min"] = _minmax(E.lt)


def _am(better, which):
    def f(x, dim=None, keepdim=False):
        a = A(x)
        return reduce_dims(a, _dims(dim, a.ndim), keepdim, lambda xs: _best(xs, better)[which])
    return f


OPS["argmax"] = _am(_gt, 1)
OPS["argmin"] = _am(E.lt, 1)
OPS["amax"] = _am(_gt, 0)
OPS["amin"] = _am(E.lt, 0)


def _scan(a, dim, f):
    if a.ndim == 0:
        return a.copy()
    out = a.copy()
    b = np.moveaxis(out, dim, 0)
    for i in range(1, b.shape[0]):
        b[i] = amap(f, b[i - 1], b[i]) if b.ndim > 1 else f(b[i - 1], b[i])
    return out


def _extremes(before):
    def f(x, dim):
        a = A(x)
        v, ix = a.copy(), objarr(a.shape, 0)
        if a.ndim:
            mv, mi = np.moveaxis(v, dim, 0), np.moveaxis(ix, dim, 0)
            for i in range(1, mv.shape[0]):
                for p in np.ndindex(*mv.shape[1:]):
                    c = before(mv[(i,) + p], mv[(i - 1,) + p])      # ties move on to the later index
                    mi[(i,) + p] = E.ite(c, mi[(i - 1,) + p], i)
                    mv[(i,) + p] = E.ite(c, mv[(i - 1,) + p], mv[(i,) + p])
        return v, ix
    return f


OPS["cummax"] = _extremes(E.lt)
OPS["cummin"] = _extremes(lambda new, old: E.lt(old, new))
OPS["logcumsumexp"] = lambda x, dim: amap(E.log, _scan(amap(E.exp, A(x)), dim, E.add))


@op("native_layer_norm")
def _(x, shape, weight=None, bias=None, eps=1e-5):
    a = A(x)
    n = len(shape)
    flat = a.reshape(a.shape[:a.ndim - n] + (-1,))
    out, mu, rs = flat.copy(), objarr(flat.shape[:-1]), objarr(flat.shape[:-1])
    k = flat.shape[-1]
    for p in np.ndindex(*flat.shape[:-1]):
        m = E.div(_sum(list(flat[p])), k)
        d = [E.sub(e, m) for e in flat[p]]
        r = E.div(1, E.sqrt(E.add(E.div(_sum([E.mul(e, e) for e in d]), k), unwrap(eps))))
        mu[p], rs[p] = m, r
        out[p] = [E.mul(e, r) for e in d]
    out = out.reshape(a.shape)
    if weight is not None:
        out = amap(E.mul, out, A(weight))
    if bias is not None:
        out = amap(E.add, out, A(bias))
    tail = a.shape[:a.ndim - n] + (1,) * n
    return out, mu.reshape(tail), rs.reshape(tail)


@op("native_batch_norm")
def _(x, weight, bias, mean, var, training, momentum, eps):
    a = A(x)
    out, n = a.copy(), a.shape[1]
    mu, rs = objarr((n,)), objarr((n,))
    for c in range(n):
        vals = list(a[:, c].reshape(-1))
        if training or mean is None:
            k = len(vals)
            m = E.div(_sum(vals), k)
            v = E.div(_sum([E.mul(E.sub(e, m), E.sub(e, m)) for e in vals]), k)
            if mean is not None:
                for t, new in ((mean, m), (var, E.mul(v, Fraction(k, k - 1)))):
                    if not isinstance(t, SymTensor):
                        raise Unsupported("batch statistics kept in a plain tensor")
                    t._d[c] = E.add(E.mul(Fraction(1) - unwrap(momentum), t._d[c]), E.mul(unwrap(momentum), new))
        else:
            m, v = A(mean)[c], A(var)[c]
        r = E.div(1, E.sqrt(E.add(v, unwrap(eps))))
        mu[c], rs[c] = m, r
        col = amap(lambda e: E.mul(E.sub(e, m), r), a[:, c])
        if weight is not None:
            col = amap(lambda e: E.mul(e, A(weight)[c]), col)
        if bias is not None:
            col = amap(lambda e: E.add(e, A(bias)[c]), col)
        out[:, c] = col
    return out, mu, rs


OPS["cumsum"] = lambda x, dim, dtype=None: _scan(amap(E.arith, A(x)), dim, E.add)
OPS["cumprod"] = lambda x, dim, dtype=None: _scan(amap(E.arith, A(x)), dim, E.mul)


@op("logsumexp")
def _(x, dim, keepdim=False):
    a = A(x)
    return reduce_dims(a, _dims(dim, a.ndim), keepdim, lambda xs: E.log(_sum([E.exp(v) for v in xs])))


@op("linalg_vector_norm")
def _(x, ord=2, dim=None, keepdim=False, dtype=None):
    a = A(x)
    o = float(ord)
    if o == 2:
        f = lambda xs: E.sqrt(_sum([E.mul(v, v) for v in xs]))
    elif o == 1:
        f = lambda xs: _sum([E.eabs(v) for v in xs])
    elif o == math.inf:
        f = lambda xs: fold(E.emax)([E.eabs(v) for v in xs])
    else:
        raise Unsupported("norm")
    return reduce_dims(a, _dims(dim, a.ndim), keepdim, f)


OPS["norm"] = lambda x, p=2, dim=None, keepdim=False, **k: OPS["linalg_vector_norm"](x, 2 if p is None else p, dim, keepdim)


# --- softmax family (defining formula; exp is uninterpreted)
def _along(a, dim, f):
    if a.ndim == 0:
        return amap(lambda v: f([v])[0], a)
    out = np.empty(a.shape, dtype=object)
    ma, mo = np.moveaxis(a, dim, -1), np.moveaxis(out, dim, -1)
    for i in np.ndindex(*ma.shape[:-1]):
        r = f(list(ma[i]))
        for j, v in enumerate(r):
            mo[i + (j,)] = v
    return out


def softmax_list(xs):
    es = [E.exp(v) for v in xs]
    s = _sum(es)
    return [E.div(v, s) for v in es]


def log_softmax_list(xs):
    s = E.log(_sum([E.exp(v) for v in xs]))
    return [E.sub(v, s) for v in xs]


OPS["_softmax"] = lambda x, dim, h=False: _along(A(x), dim, softmax_list)
OPS["_log_softmax"] = lambda x, dim, h=False: _along(A(x), dim, log_softmax_list)


@op("_softmax_backward_data")
def _(g, o, dim, dt):
    ga, oa = A(g), A(o)
    p = amap(E.mul, ga, oa)
    s = reduce_dims(p, _dims(dim, p.ndim), True, _sum)
    return amap(lambda g, o, s: E.mul(o, E.sub(g, s)), ga, oa, s)


@op("_log_softmax_backward_data")
def _(g, o, dim, dt):
    ga, oa = A(g), A(o)
    s = reduce_dims(ga, _dims(dim, ga.ndim), True, _sum)
    return amap(lambda g, o, s: E.sub(g, E.mul(E.exp(o), s)), ga, oa, s)


pw("tanh_backward", lambda g, o: E.mul(g, E.sub(1, E.mul(o, o))))
pw("sigmoid_backward", lambda g, o: E.mul(g, E.mul(o, E.sub(1, o))))
OPS["threshold_backward"] = lambda g, x, t: amap(lambda g, x: E.ite(E.lt(unwrap(t), x), g, 0), A(g), A(x))
OPS["leaky_relu_backward"] = lambda g, x, s, r: amap(
    lambda g, x: E.ite(E.lt(0, x), g, E.mul(unwrap(s), g)), A(g), A(x))


# --- losses
def _reduction(a, r):
    if r == 0:
        return a
    s = reduce_dims(a, tuple(range(a.ndim)), False, _sum)
    return s if r == 2 else amap(lambda v: E.div(v, a.size), s)


def _rgrad(g, a, r):
    return amap(lambda v: E.div(v, a.size), g) if r == 1 else g


@op("mse_loss")
def _(x, y, reduction=1):
    return _reduction(amap(lambda a, b: E.mul(E.sub(a, b), E.sub(a, b)), A(x), A(y)), reduction)


@op("mse_loss_backward")
def _(g, x, y, reduction):
    d = amap(E.sub, A(x), A(y))
    return amap(lambda g, d: E.mul(E.mul(2, d), g), _rgrad(A(g), d, reduction), d)


def _sl1(d, beta):
    a = E.eabs(d)
    if beta == 0:
        return a
    return E.ite(E.lt(a, beta), E.div(E.mul(d, d), 2 * beta), E.sub(a, E.div(beta, 2)))


@op("smooth_l1_loss")
def _(x, y, reduction=1, beta=1.0):
    b = unwrap(beta)
    return _reduction(amap(lambda a, c: _sl1(E.sub(a, c), b), A(x), A(y)), reduction)


@op("smooth_l1_loss_backward")
def _(g, x, y, reduction, beta):
    b = unwrap(beta)
    d = amap(E.sub, A(x), A(y))
    return amap(lambda g, v: E.mul(g, E.ite(E.lt(E.eabs(v), b), E.div(v, b), E.sign(v))), _rgrad(A(g), d, reduction), d)


@op("huber_loss")
def _(x, y, reduction=1, delta=1.0):
    b = unwrap(delta)
    def h(d):
        a = E.eabs(d)
        return E.ite(E.le(a, b), E.div(E.mul(d, d), 2), E.mul(b, E.sub(a, E.div(b, 2))))
    return _reduction(amap(lambda a, c: h(E.sub(a, c)), A(x), A(y)), reduction)


@op("binary_cross_entropy")
def _(x, y, weight=None, reduction=1):
    def clog(v):
        return E.emax(E.log(v), -100)
    def f(p, t):
        return E.neg(E.add(E.mul(t, clog(p)), E.mul(E.sub(1, t), clog(E.sub(1, p)))))
    a = amap(f, A(x), A(y))
    if weight is not None:
        a = amap(E.mul, a, A(weight))
    return _reduction(a, reduction)


@op("binary_cross_entropy_with_logits")
def _(x, y, weight=None, pos_weight=None, reduction=1):
    def f(v, t):
        s = E.unary("SIGMOID", v)
        return E.neg(E.add(E.mul(t, E.log(s)), E.mul(E.sub(1, t), E.log(E.sub(1, s)))))
    return _reduction(amap(f, A(x), A(y)), reduction)


@op("nll_loss_forward")
def _(x, target, weight, reduction, ignore_index):
    a, t = A(x), A(target)
    if a.ndim == 1:
        a, t = a[None], t.reshape(1)
    n, c = a.shape
    w = [1] * c if weight is None else list(A(weight))
    rows, ws = [], []
    for i in range(n):
        v = select_sym(list(a[i]), t[i])
        wi = select_sym(w, t[i])
        if weight is None and not isinstance(t[i], int):
            wi = 1
        rows.append(E.neg(E.mul(wi, v)))
        ws.append(wi)
    tw = _sum(ws)
    ar = np.empty((n,), dtype=object)
    ar[:] = rows
    one = objarr(())
    one[()] = tw
    if reduction == 0:
        return ar, one
    s = objarr(())
    s[()] = _sum(rows) if reduction == 2 else E.div(_sum(rows), tw)
    return s, one


@op("nll_loss_backward")
def _(g, x, target, weight, reduction, ignore_index, tw):
    a, t, ga = A(x), A(target), A(g)
    n, c = a.shape
    out = objarr(a.shape, 0)
    for i in range(n):
        for j in range(c):
            gi = ga[i] if reduction == 0 else ga[()]
            if reduction == 1:
                gi = E.div(gi, A(tw)[()])
            if weight is not None:
                gi = E.mul(gi, A(weight)[j])
            out[i, j] = E.ite(E.eq(t[i], j), E.neg(gi), 0)
    return out


# --- linear algebra
def _mm(a, b):
    n, k = a.shape
    m = b.shape[1]
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = _sum([E.mul(a[i, t], b[t, j]) for t in range(k)]) if k else 0
    return out


OPS["mm"] = lambda a, b: _mm(A(a), A(b))
OPS["addmm"] = lambda c, a, b, beta=1, alpha=1: amap(
    lambda x, y: E.add(E.mul(unwrap(beta), x), E.mul(unwrap(alpha), y)), A(c), _mm(A(a), A(b)))


@op("bmm")
def _(a, b):
    a, b = A(a), A(b)
    if a.shape[0] == 0:
        return objarr((0, a.shape[1], b.shape[2]))
    return np.stack([_mm(a[i], b[i]) for i in range(a.shape[0])])


OPS["baddbmm"] = lambda c, a, b, beta=1, alpha=1: amap(
    lambda x, y: E.add(E.mul(unwrap(beta), x), E.mul(unwrap(alpha), y)), A(c), OPS["bmm"](a, b))
OPS["mv"] = lambda a, b: _mm(A(a), A(b).reshape(-1, 1)).reshape(-1)
OPS["dot"] = lambda a, b: _mm(A(a).reshape(1, -1), A(b).reshape(-1, 1)).reshape(())
OPS["vdot"] = OPS["dot"]
OPS["ger"] = lambda a, b: amap(E.mul, A(a)[:, None], A(b)[None, :])


# --- indexing by values
def chk_index(i, n, what="index"):
    """python IndexError when an index can be outside [-n, n)"""
    if isinstance(i, int):
        if not (-n <= i < n):
            raise IndexError(f"{what} {i} is out of bounds for dimension with size {n}")
        return i % n if n else i
    bad = explore.may(E.b_or(E.lt(i, -n), E.le(n, i)))
    if bad is not False and explore.CUR.decide(E.zb(bad)):
        raise IndexError(f"{what} out of bounds for dimension with size {n}")
    negs = explore.may(E.lt(i, 0))
    if negs is not False:
        return E.ite(negs, E.add(i, n), i)
    return i


def select_sym(xs, i):
    i = chk_index(i, len(xs))
    if isinstance(i, int):
        return xs[i]
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = E.ite(E.eq(i, j), xs[j], r)
    return r


@op("gather")
def _(x, dim, index, sparse_grad=False):
    a, ix = A(x), A(index)
    if a.ndim == 0:
        return a.copy()
    d = dim % a.ndim
    out = np.empty(ix.shape, dtype=object)
    for p in np.ndindex(*ix.shape):
        i = ix[p]
        if isinstance(i, int) and i < 0:
            raise RuntimeError("index out of bounds in gather")
        col = [a[p[:d] + (j,) + p[d + 1:]] for j in range(a.shape[d])]
        if not isinstance(i, int):
            bad = explore.may(E.lt(i, 0))
            if bad is not False and explore.CUR.decide(bad):
                raise RuntimeError("index out of bounds in gather")
        out[p] = select_sym(col, i)
    return out


def _scatter(a, d, ix, src, f):
    out = a.copy()
    for p in np.ndindex(*ix.shape):
        i = ix[p]
        if isinstance(i, int) and not (0 <= i < a.shape[d]):
            raise RuntimeError("index out of bounds in scatter")
        i = chk_index(i, a.shape[d])
        v = src[p]
        if isinstance(i, int):
            q = p[:d] + (i,) + p[d + 1:]
            out[q] = f(out[q], v)
        else:
            for j in range(a.shape[d]):
                q = p[:d] + (j,) + p[d + 1:]
                out[q] = E.ite(E.eq(i, j), f(out[q], v), out[q])
    return out


def _src_of(src, ix):
    s = A(src)
    return np.broadcast_to(s, ix.shape) if s.ndim == 0 else s


@op("scatter")
def _(x, dim, index, src=None, value=None, reduce=None):
    a, ix = A(x), A(index)
    s = _src_of(value if src is None else src, ix)
    f = {None: lambda o, v: v, "add": E.add, "multiply": E.mul}[reduce]
    return _scatter(a, dim % max(a.ndim, 1), ix, s, f)


@op("scatter_add")
def _(x, dim, index, src):
    a, ix = A(x), A(index)
    return _scatter(a, dim % max(a.ndim, 1), ix, _src_of(src, ix), E.add)


@op("scatter_reduce")
def _(x, dim, index, src, reduce, include_self=True):
    f = {"sum": E.add, "prod": E.mul, "amax": E.emax, "amin": E.emin}.get(reduce)
    if f is None or not include_self:
        raise Unsupported(f"scatter_reduce {reduce}")
    a, ix = A(x), A(index)
    return _scatter(a, dim % max(a.ndim, 1), ix, _src_of(src, ix), f)


@op("index_select")
def _(x, dim, index):
    a, ix = A(x), A(index).reshape(-1)
    d = dim % max(a.ndim, 1)
    m = np.moveaxis(a, d, 0)
    rows = []
    for i in ix:
        r = np.empty(m.shape[1:], dtype=object)
        for p in np.ndindex(*m.shape[1:]):
            r[p] = select_sym([m[(j,) + p] for j in range(m.shape[0])], i)
        rows.append(r)
    out = np.stack(rows) if rows else np.empty((0,) + m.shape[1:], dtype=object)
    return np.moveaxis(out, 0, d)


@op("index_add")
def _(x, dim, index, src, alpha=1):
    a, ix, s = A(x).copy(), A(index).reshape(-1), A(src)
    d = dim % max(a.ndim, 1)
    m, sm = np.moveaxis(a, d, 0), np.moveaxis(s, d, 0)
    for k, i in enumerate(ix):
        i = chk_index(i, m.shape[0])
        for j in range(m.shape[0]):
            c = E.eq(i, j)
            for p in np.ndindex(*m.shape[1:]):
                m[(j,) + p] = E.ite(c, E.add(m[(j,) + p], E.mul(unwrap(alpha), sm[(k,) + p])), m[(j,) + p])
    return a


def _concretise_indices(indices, shape):
    """expand boolean masks; symbolic masks fork, symbolic integers stay symbolic"""
    out = []
    dim = 0
    for ix in indices:
        if ix is None:
            out.append(None)
            dim += 1
            continue
        a = A(ix)
        if isinstance(ix, torch.Tensor) and ix.dtype in (torch.bool, torch.uint8):
            if tuple(a.shape) != tuple(shape[dim:dim + a.ndim]):
                raise IndexError(f"The shape of the mask {a.shape} does not match the shape of the indexed tensor {tuple(shape)}")
            pos = [p for p in np.ndindex(*a.shape) if fork(a[p])]
            for k in range(a.ndim):
                col = np.empty((len(pos),), dtype=object)
                for r, p in enumerate(pos):
                    col[r] = p[k]
                out.append(col)
            dim += a.ndim
        else:
            out.append(a)
            dim += 1
    return out + [None] * (len(shape) - len(out))


def fork(b):
    b = E.truth(b)
    if isinstance(b, bool):
        return b
    return explore.CUR.decide(b)


def _index_layout(ixs, shape):
    """numpy/torch advanced indexing layout"""
    adv = [k for k, i in enumerate(ixs) if i is not None]
    bshape = np.broadcast_shapes(*[ixs[k].shape for k in adv])
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    rest = [k for k in range(len(shape)) if k not in adv]
    lead = [k for k in rest if contiguous and k < adv[0]]
    tail = [k for k in rest if k not in lead]
    return adv, bshape, lead, tail


@op("index", "_unsafe_index")
@nometa
def _(x, indices):
    x = to_sym(x)
    a = x._d
    ixs = _concretise_indices(indices, a.shape)
    adv, bshape, lead, tail = _index_layout(ixs, a.shape)
    bi = [np.broadcast_to(ixs[k], bshape) for k in adv]
    oshape = tuple(a.shape[k] for k in lead) + tuple(bshape) + tuple(a.shape[k] for k in tail)
    out = np.empty(oshape, dtype=object)
    for p in np.ndindex(*oshape):
        full = [None] * a.ndim
        for j, k in enumerate(lead):
            full[k] = p[j]
        for j, k in enumerate(tail):
            full[k] = p[len(lead) + len(bshape) + j]
        bp = p[len(lead):len(lead) + len(bshape)]
        cand = [([], True)]
        for arr, k in zip(bi, adv):
            i = chk_index(arr[bp], a.shape[k])
            if isinstance(i, int):
                cand = [(c + [i], g) for c, g in cand]
            else:
                cand = [(c + [j], E.b_and(g, E.eq(i, j))) for c, g in cand for j in range(a.shape[k])]
        r = None
        for c, g in reversed(cand):
            f = list(full)
            for j, k in enumerate(adv):
                f[k] = c[j]
            v = a[tuple(f)]
            r = v if r is None else E.ite(g, v, r)
        out[p] = r
    return SymTensor(out, x.dtype)


def _index_put(x, indices, values, accumulate):
    a = x._d
    val = A(values)
    # a mask with a single value needs no path split
    masks = [i for i in indices if i is not None]
    if val.size == 1 and len(masks) == 1 and masks[0].dtype in (torch.bool, torch.uint8):
        k = [i for i, m in enumerate(indices) if m is not None][0]
        m = A(masks[0])
        if tuple(m.shape) != tuple(a.shape[k:k + m.ndim]):
            raise IndexError(f"The shape of the mask {m.shape} does not match the shape of the indexed tensor {a.shape}")
        v = cast_elem(val.reshape(-1)[0], kind(x.dtype))
        for p in np.ndindex(*a.shape):
            c = E.truth(m[p[k:k + m.ndim]])
            a[p] = E.ite(c, E.add(a[p], v) if accumulate else v, a[p])
        return x
    ixs = _concretise_indices(indices, a.shape)
    adv, bshape, lead, tail = _index_layout(ixs, a.shape)
    bi = [np.broadcast_to(ixs[k], bshape) for k in adv]
    oshape = tuple(a.shape[k] for k in lead) + tuple(bshape) + tuple(a.shape[k] for k in tail)
    try:
        vb = np.broadcast_to(val, oshape)
    except ValueError:
        raise RuntimeError(f"shape mismatch: value tensor of shape {val.shape} cannot be broadcast to indexing result of shape {oshape}")
    kd = kind(x.dtype)
    for p in np.ndindex(*oshape):
        full = [None] * a.ndim
        for j, k in enumerate(lead):
            full[k] = p[j]
        for j, k in enumerate(tail):
            full[k] = p[len(lead) + len(bshape) + j]
        bp = p[len(lead):len(lead) + len(bshape)]
        cand = [([], True)]
        for arr, k in zip(bi, adv):
            i = chk_index(arr[bp], a.shape[k])
            if isinstance(i, int):
                cand = [(c + [i], g) for c, g in cand]
            else:
                cand = [(c + [j], E.b_and(g, E.eq(i, j))) for c, g in cand for j in range(a.shape[k])]
        v = cast_elem(vb[p], kd)
        for c, g in cand:
            f = list(full)
            for j, k in enumerate(adv):
                f[k] = c[j]
            f = tuple(f)
            a[f] = E.ite(g, E.add(a[f], v) if accumulate else v, a[f])
    return x


SPECIAL = {}


def special(*names):
    def deco(f):
        for n in names:
            SPECIAL[n] = f
        return f
    return deco


def _idx(i):
    return i


@special("index_put_", "_index_put_impl_", "_unsafe_index_put_")
def _(func, args, kwargs):
    x, indices, values = args[:3]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    if not isinstance(x, SymTensor):
        raise Unsupported("index_put_ on a pre-existing concrete tensor")
    vt = values.dtype if isinstance(values, torch.Tensor) else x.dtype
    if vt != x.dtype:
        raise RuntimeError("Index put requires the source and destination dtypes match, "
                           f"got {x.dtype} for the destination and {vt} for the source.")
    return _index_put(x, indices, values, acc)


@special("index_put")
def _(func, args, kwargs):
    x = to_sym(args[0])
    return SPECIAL["index_put_"](func, (SymTensor(x._d.copy(), x.dtype),) + tuple(args[1:]), kwargs)


@special("masked_select")
def _(func, args, kwargs):
    x, m = to_sym(args[0]), A(args[1])
    a, m = np.broadcast_arrays(x._d, m)
    vals = [a[p] for p in np.ndindex(*a.shape) if fork(m[p])]
    out = np.empty((len(vals),), dtype=object)
    out[:] = vals
    return SymTensor(out, x.dtype)


@special("nonzero")
def _(func, args, kwargs):
    a = A(args[0])
    pos = [p for p in np.ndindex(*a.shape) if fork(a[p])]
    out = np.empty((len(pos), a.ndim), dtype=object)
    for r, p in enumerate(pos):
        for k in range(a.ndim):
            out[r, k] = p[k]
    return SymTensor(out, torch.int64)


@special("masked_scatter", "masked_scatter_")
def _(func, args, kwargs):
    x, m, s = to_sym(args[0]), A(args[1]), list(A(args[2]).reshape(-1))
    out = x._d if func.overloadpacket.__name__.endswith("_") else x._d.copy()
    mb = np.broadcast_to(m, out.shape)
    k = 0
    for p in np.ndindex(*out.shape):
        if fork(mb[p]):
            out[p] = s[k]
            k += 1
    return x if out is x._d else SymTensor(out, x.dtype)


@special("_local_scalar_dense")
def _(func, args, kwargs):
    v = args[0].item()
    if isinstance(v, S):
        if E.is_int(v.e):
            return int(v)
        raise Unsupported("a symbolic tensor element would be concretised")
    return v


@special("equal")
def _(func, args, kwargs):
    a, b = A(args[0]), A(args[1])
    if a.shape != b.shape:
        return False
    return fork(E.b_and(*[E.eq(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))]))


@special("allclose")
def _(func, args, kwargs):
    k = dict(zip(("rtol", "atol", "equal_nan"), args[2:]), **kwargs)
    return fork(E.b_and(*torch.isclose(args[0], args[1], **k)._d.reshape(-1)))


@special("trace")
def _(func, args, kwargs):
    return torch.diagonal(args[0]).sum()


@special("is_same_size")
def _(func, args, kwargs):
    return tuple(args[0].shape) == tuple(args[1].shape)


@special("set_", "resize_")
def _(func, args, kwargs):
    raise Unsupported(str(func))


@special("lift_fresh", "lift")
def _(func, args, kwargs):
    return to_sym(args[0])


@special("unique", "_unique2", "histc")
def _(func, args, kwargs):
    r = on_constants(func, args, kwargs)
    if r is NotImplemented:
        raise Unsupported(str(func))
    return r


@op("masked_fill")
def _(x, m, v):
    return amap(lambda e, c, w: E.ite(E.truth(c), w, e), A(x), A(m), A(v))


def sort_list(xs, descending, stable=True):
    """concrete permutation; comparisons fork"""
    idx = list(range(len(xs)))
    out = []
    for i in idx:  # insertion sort, stable
        k = len(out)
        while k > 0:
            j = out[k - 1]
            before = E.lt(xs[j], xs[i]) if descending else E.lt(xs[i], xs[j])
            if fork(before):
                k -= 1
            else:
                break
        out.insert(k, i)
    return out


def _sort(x, dim=-1, descending=False, stable=None):
    if isinstance(dim, bool):
        dim, descending = -1, dim
    a = A(x)
    v, ix = np.empty(a.shape, dtype=object), np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        v[()], ix[()] = a[()], 0
        return v, ix
    ma, mv, mi = (np.moveaxis(t, dim, -1) for t in (a, v, ix))
    for p in np.ndindex(*ma.shape[:-1]):
        perm = sort_list(list(ma[p]), descending)
        for k, j in enumerate(perm):
            mv[p + (k,)] = ma[p + (j,)]
            mi[p + (k,)] = j
    return v, ix


@op("sort")
def _(x, *args, **kw):
    if args and args[0] is None:
        args = args[1:]
    if "stable" in kw:
        st = kw.pop("stable")
        return _sort(x, *args, **kw)
    return _sort(x, *args, **kw)


@op("argsort")
def _(x, *args, **kw):
    kw.pop("stable", None)
    return _sort(x, *args, **kw)[1]


@op("bincount")
@nometa
def _(x, weights=None, minlength=0):
    xs = [e if isinstance(e, int) else explore.CUR.choose(e) for e in A(x).reshape(-1)]
    n = max([minlength] + [v + 1 for v in xs])
    if weights is None:
        return torch.tensor([xs.count(k) for k in range(n)])
    w = A(weights).reshape(-1)
    out = np.empty(n, dtype=object)
    for k in range(n):
        out[k] = _sum([e for v, e in zip(xs, w) if v == k]) if k in xs else 0
    return SymTensor(out, weights.dtype if weights.dtype.is_floating_point else torch.float64)


@op("median")
def _(x, dim=None, keepdim=False):
    a = A(x)
    if dim is None:
        xs = list(a.reshape(-1))
        out = np.empty((), dtype=object)
        out[()] = xs[sort_list(xs, False)[(len(xs) - 1) // 2]]
        return out
    v, ix = _sort(x, dim)
    sl = [slice(None)] * v.ndim
    k = (v.shape[dim] - 1) // 2
    sl[dim] = slice(k, k + 1) if keepdim else k
    return v[tuple(sl)], ix[tuple(sl)]


@op("topk")
def _(x, k, dim=-1, largest=True, sorted=True):
    v, ix = _sort(x, dim, largest)
    if v.ndim == 0:
        return v, ix
    sl = [slice(None)] * v.ndim
    sl[dim] = slice(0, k)
    return v[tuple(sl)], ix[tuple(sl)]


@op("searchsorted")
@nometa
def _(seq, values, out_int32=False, right=False, side=None, sorter=None):
    s, v = A(seq), A(values)
    if side == "right":
        right = True
    out = np.empty(v.shape, dtype=object)
    for p in np.ndindex(*v.shape):
        row = s if s.ndim == 1 else s[p[:-1]]
        out[p] = _sum([E.ite(E.le(b, v[p]) if right else E.lt(b, v[p]), 1, 0) for b in row])
    return SymTensor(out, torch.int32 if out_int32 else torch.int64)


@op("bucketize")
@nometa
def _(v, bounds, out_int32=False, right=False):
    return OPS["searchsorted"](bounds, v, out_int32, right)


# --- shape makers
@op("cat", "concatenate")
@nometa
def _(ts, dim=0):
    m = run_meta(aten.cat.default, (list(ts), dim), {})
    arrs = [A(t) for t in ts]
    arrs = [a for a in arrs if not (a.ndim == 1 and a.size == 0)] or arrs
    return SymTensor(cast(np.concatenate(arrs, axis=dim), m.dtype), m.dtype)


@op("stack")
@nometa
def _(ts, dim=0):
    m = run_meta(aten.stack.default, (list(ts), dim), {})
    return SymTensor(cast(np.stack([A(t) for t in ts], axis=dim), m.dtype), m.dtype)


@op("repeat")
def _(x, reps):
    return np.tile(A(x), tuple(reps))


@op("repeat_interleave")
@nometa
def _(x, repeats=None, dim=None, output_size=None):
    if isinstance(repeats, torch.Tensor) or repeats is None:
        r = A(x if repeats is None else repeats).reshape(-1)
        r = [explore.CUR.choose(v) if not isinstance(v, int) else v for v in r]
        if repeats is None:
            o = [i for i, k in enumerate(r) for _ in range(k)]
            out = np.empty((len(o),), dtype=object)
            out[:] = o
            return SymTensor(out, torch.int64)
        repeats = r if len(r) > 1 else r[0]
    x = to_sym(x)
    a = x._d.reshape(-1) if dim is None else x._d
    return SymTensor(np.repeat(a, repeats, axis=0 if dim is None else dim), x.dtype)


OPS["tril"] = lambda x, k=0: _tri(A(x), k, lambda i, j, k: j - i <= k)
OPS["triu"] = lambda x, k=0: _tri(A(x), k, lambda i, j, k: j - i >= k)


def _tri(a, k, keep):
    out = a.copy()
    for p in np.ndindex(*a.shape):
        if not keep(p[-2], p[-1], k):
            out[p] = False if E.is_bool(a[p]) else 0
    return out


OPS["flip"] = lambda x, dims: np.flip(A(x), tuple(dims)).copy()
OPS["roll"] = lambda x, shifts, dims=(): np.roll(A(x), tuple(shifts) if not isinstance(shifts, int) else shifts,
                                               (tuple(dims) if not isinstance(dims, int) else dims) or None)
OPS["diag_embed"] = lambda x, *a: _diag_embed(A(x))


def _diag_embed(a):
    n = a.shape[-1]
    out = objarr(a.shape + (n,), 0)
    for p in np.ndindex(*a.shape):
        out[p + (p[-1],)] = a[p]
    return out


@op("constant_pad_nd")
def _(x, pad, value=0):
    a = A(x)
    w = [(0, 0)] * a.ndim
    for k in range(len(pad) // 2):
        w[a.ndim - 1 - k] = (pad[2 * k], pad[2 * k + 1])
    a2 = a
    for d, (lo, hi) in enumerate(w):
        if lo < 0 or hi < 0:
            sl = [slice(None)] * a.ndim
            sl[d] = slice(max(0, -lo), a.shape[d] - max(0, -hi))
            a2 = a2[tuple(sl)]
    return np.pad(a2, [(max(l, 0), max(h, 0)) for l, h in w], constant_values=unwrap(value))


@op("unfold_backward", "slice_backward", "select_backward")
@nometa
def _(*args, **kw):
    raise Unsupported("backward of a strided view")


@op("slice_backward")
@nometa
def _(g, sizes, dim, start, end, step):
    out = objarr(sizes, 0)
    sl = [slice(None)] * len(sizes)
    n = sizes[dim]
    sl[dim] = slice(start, min(end, n), step)
    out[tuple(sl)] = A(g)
    return SymTensor(out, g.dtype)


@op("select_backward")
@nometa
def _(g, sizes, dim, index):
    out = objarr(sizes, 0)
    sl = [slice(None)] * len(sizes)
    sl[dim] = index
    out[tuple(sl)] = A(g)
    return SymTensor(out, g.dtype)


@op("embedding")
@nometa
def _(weight, indices, padding_idx=-1, scale_grad_by_freq=False, sparse=False):
    w, ix = to_sym(weight), A(indices)
    out = np.empty(ix.shape + (w.shape[1],), dtype=object)
    for p in np.ndindex(*ix.shape):
        for c in range(w.shape[1]):
            out[p + (c,)] = select_sym(list(w._d[:, c]), ix[p])
    return SymTensor(out, w.dtype)


@op("_embedding_bag", "_embedding_bag_forward_only")
@nometa
def _(weight, indices, offsets, scale_grad_by_freq=False, mode=0, sparse=False, per_sample_weights=None, include_last_offset=False, padding_idx=-1):
    if mode not in (0, 1) or padding_idx not in (-1, None):
        raise Unsupported("embedding bag mode")
    w, ix = to_sym(weight), A(indices)
    off = [int(S(o)) if not isinstance(o, int) else o for o in A(offsets)]
    if not include_last_offset:
        off = off + [ix.shape[0]]
    if off[0] != 0 or any(a > b for a, b in zip(off, off[1:])) or off[-1] != ix.shape[0]:
        raise RuntimeError("offsets must start at 0, increase and cover the indices")
    pw = None if per_sample_weights is None else A(per_sample_weights)
    out = objarr((len(off) - 1, w.shape[1]), 0)
    for b in range(len(off) - 1):
        for c in range(w.shape[1]):
            v = [select_sym(list(w._d[:, c]), ix[k]) for k in range(off[b], off[b + 1])]
            if pw is not None:
                v = [E.mul(pw[k], x) for k, x in zip(range(off[b], off[b + 1]), v)]
            r = 0
            for x in v:
                r = E.add(r, x)
            if mode == 1 and v:
                r = E.div(r, len(v))
            out[b, c] = r
    none = torch.zeros(0, dtype=torch.int64)
    return SymTensor(out, w.dtype), none, none, none


@op("_linalg_det")
@nometa
def _(x):
    a = A(x)
    if a.ndim != 2:
        raise Unsupported("determinant of a batch")

    def det(rows, cols):
        if not rows:
            return 1
        r, k = 0, 1
        for i, c in enumerate(cols):
            t = E.mul(a[rows[0], c], det(rows[1:], cols[:i] + cols[i + 1:]))
            r = E.add(r, t) if k > 0 else E.sub(r, t)
            k = -k
        return r
    out = objarr((), 0)
    out[()] = det(list(range(a.shape[0])), list(range(a.shape[1])))
    none = torch.zeros(0)
    return SymTensor(out, x.dtype), none, none


# --- views (numpy views share storage, so aliasing is modelled)
def _reshape_view(a, size):
    size = list(size)
    n = a.size
    if -1 in size:
        k = size.index(-1)
        rest = 1
        for i, s in enumerate(size):
            if i != k:
                rest *= s
        size[k] = n // rest if rest else 0
    tot = 1
    for s in size:
        tot *= s
    if tot != n:
        raise RuntimeError(f"shape '{size}' is invalid for input of size {n}")
    v = a.view()
    try:
        v.shape = tuple(size)
        return v
    except AttributeError:
        raise RuntimeError("view size is not compatible with input tensor's size and stride")


@view("view", "_unsafe_view", "reshape", "_reshape_alias")
def _(a, size, *rest):
    if isinstance(size, torch.dtype):
        raise Unsupported("view(dtype)")
    return _reshape_view(a, size)


VIEWS["detach"] = lambda a: a.view()
VIEWS["alias"] = lambda a: a.view()
VIEWS["lift_fresh"] = lambda a: a
VIEWS["t"] = lambda a: a.T if a.ndim == 2 else a.view()
VIEWS["transpose"] = lambda a, d0, d1: np.swapaxes(a, d0, d1) if a.ndim else a.view()
VIEWS["permute"] = lambda a, dims: a.transpose([d % a.ndim for d in dims])
VIEWS["unsqueeze"] = lambda a, d: np.expand_dims(a, d if d >= 0 else d + a.ndim + 1)


@view("squeeze")
def _(a, dim=None):
    if dim is None:
        ds = [i for i, s in enumerate(a.shape) if s == 1]
    else:
        ds = [d % a.ndim for d in ([dim] if isinstance(dim, int) else dim)] if a.ndim else []
        ds = [d for d in ds if a.shape[d] == 1]
    return np.squeeze(a, tuple(ds)) if ds else a.view()


@view("expand")
def _(a, size, implicit=False):
    lead = len(size) - a.ndim
    full = [a.shape[i - lead] if s == -1 else s for i, s in enumerate(size)]
    for i, s in enumerate(full):
        if i >= lead and a.shape[i - lead] != s and a.shape[i - lead] != 1:
            raise RuntimeError(f"The expanded size of the tensor ({s}) must match the existing size "
                               f"({a.shape[i - lead]}) at non-singleton dimension {i}.")
    r = np.broadcast_to(a, full)
    r = np.lib.stride_tricks.as_strided(a, shape=tuple(full), strides=r.strides)
    return r


@view("select")
def _(a, dim, index):
    index = index if isinstance(index, int) else int(index)
    n = a.shape[dim]
    if not -n <= index < n:
        raise IndexError(f"index {index} is out of bounds for dimension {dim} with size {n}")
    sl = [slice(None)] * a.ndim
    sl[dim] = slice(index % n, index % n + 1)
    return np.squeeze(a[tuple(sl)], dim)


@view("slice")
def _(a, dim=0, start=None, end=None, step=1):
    sl = [slice(None)] * a.ndim
    n = a.shape[dim]
    start = 0 if start is None else start
    end = n if end is None else min(end, n)
    sl[dim] = slice(start, end, step)
    return a[tuple(sl)]


VIEWS["narrow"] = lambda a, dim, start, length: VIEWS["slice"](a, dim, start, start + length)


@view("split")
def _(a, size, dim=0):
    n = a.shape[dim]
    if isinstance(size, int):
        cuts = list(range(0, n, size)) if n else [0]
        return [VIEWS["slice"](a, dim, c, min(c + size, n)) for c in cuts]
    out, c = [], 0
    for s in size:
        out.append(VIEWS["slice"](a, dim, c, c + s))
        c += s
    return out


VIEWS["split_with_sizes"] = VIEWS["split"]
VIEWS["unbind"] = lambda a, dim=0: [VIEWS["select"](a, dim, i) for i in range(a.shape[dim])]


@view("diagonal")
def _(a, offset=0, dim1=0, dim2=1):
    d = np.diagonal(a, offset, dim1, dim2)
    d.flags.writeable = True        # a view, as in torch
    return d


@view("as_strided")
def _(a, size, stride, storage_offset=None):
    if not a.flags["C_CONTIGUOUS"] or storage_offset not in (None, 0):
        raise Unsupported("as_strided")
    return np.lib.stride_tricks.as_strided(a, tuple(size), tuple(s * 8 for s in stride))


@view("unfold")
def _(a, dim, size, step):
    n = (a.shape[dim] - size) // step + 1
    parts = [np.moveaxis(VIEWS["slice"](a, dim, i * step, i * step + size), dim, -1) for i in range(n)]
    return np.stack(parts, axis=dim)


# --- nondeterminism: every random source is a fresh symbolic value (recorded for replay)
RANDOM = {}


def _rand_result(func, args, kwargs, name, sort, lo=None, hi=None, strict=(False, True)):
    with no_modes():
        pa = tree_map(lambda t: torch.zeros(t.shape, dtype=t.dtype) if isinstance(t, torch.Tensor) else t, args)
        proto = func(*pa, **kwargs)
    return fresh_tensor(name, tuple(proto.shape), proto.dtype, sort, lo, hi, strict)


def fresh_tensor(name, shape, dtype, sort, lo=None, hi=None, strict=(False, False)):
    p = explore.CUR
    out = objarr(shape)
    for i in np.ndindex(*shape):
        v = p.fresh("rnd." + name, sort)
        if lo is not None:
            p.add(v > lo if strict[0] else v >= lo)
        if hi is not None:
            p.add(v < hi if strict[1] else v <= hi)
        out[i] = v
    RANDOM_LOG(name, out)
    return SymTensor(out, dtype)


_LOGS = []


def RANDOM_LOG(name, arr):
    for log in _LOGS:
        log(name, arr)


def rnd(name):
    def deco(f):
        RANDOM[name] = f
        return f
    return deco


for _n in ("randn", "randn_like", "normal_functional"):
    RANDOM[_n] = lambda func, args, kwargs: _rand_result(func, args, kwargs, "normal", "R")
for _n in ("rand", "rand_like"):
    RANDOM[_n] = lambda func, args, kwargs: _rand_result(func, args, kwargs, "uniform", "R", 0, 1, (False, True))


@rnd("normal")
def _(func, args, kwargs):
    a0 = args[0]
    mean, std = (list(args) + [None, None])[:2]
    with no_modes():
        pa = tree_map(lambda t: torch.ones(t.shape, dtype=t.dtype) if isinstance(t, torch.Tensor) else t, args)
        proto = func(*pa, **kwargs)
    r = fresh_tensor("normal", tuple(proto.shape), proto.dtype, "R")
    out = amap(lambda n, m, s: E.add(m, E.mul(n, s)), r._d, A(0 if mean is None else mean), A(1 if std is None else std))
    return SymTensor(out, proto.dtype)


@rnd("normal_")
def _(func, args, kwargs):
    t = args[0]
    if not isinstance(t, SymTensor):
        with no_modes():
            return func(*args, **kwargs)
    r = fresh_tensor("normal", tuple(t.shape), t.dtype, "R")
    mean = args[1] if len(args) > 1 else kwargs.get("mean", 0)
    std = args[2] if len(args) > 2 else kwargs.get("std", 1)
    t._d[...] = amap(lambda n, m, s: E.add(m, E.mul(n, s)), r._d, A(mean), A(std))
    return t


@rnd("uniform_")
def _(func, args, kwargs):
    t = args[0]
    if not isinstance(t, SymTensor):
        with no_modes():
            return func(*args, **kwargs)
    lo = args[1] if len(args) > 1 else kwargs.get("from", 0)
    hi = args[2] if len(args) > 2 else kwargs.get("to", 1)
    r = fresh_tensor("uniform", tuple(t.shape), t.dtype, "R", 0, 1, (False, True))
    lo_, w = unwrap(lo), E.sub(unwrap(hi), unwrap(lo))
    t._d[...] = amap(lambda u: E.add(lo_, E.mul(w, u)), r._d)
    return t


@rnd("uniform")
def _(func, args, kwargs):
    r = to_sym(args[0])
    return RANDOM["uniform_"](func, (SymTensor(r._d.copy(), r.dtype),) + tuple(args[1:]), kwargs)


@rnd("randint")
def _(func, args, kwargs):
    if func._overloadname.startswith("low"):
        lo, hi = args[0], args[1]
    else:
        lo, hi = 0, args[0]
    return _rand_result(func, args, kwargs, "randint", "I", lo, hi - 1, (False, False))


@rnd("multinomial")
def _(func, args, kwargs):
    """any index with positive probability (distinct when sampling without replacement)"""
    x = to_sym(args[0])
    n = args[1]
    repl = args[2] if len(args) > 2 else kwargs.get("replacement", False)
    a = x._d if x._d.ndim == 2 else x._d[None]
    k = a.shape[1]
    p = explore.CUR
    bad = E.b_or(*[False if E.is_pos(e) else E.b_or(E.b_not(E.finite(e)), E.lt(e if not isinstance(e, E.Ext) else e.val, 0)) for e in a.reshape(-1)])
    if fork(bad):
        raise RuntimeError("probability tensor contains either `inf`, `nan` or element < 0")
    for i in range(a.shape[0]):
        if all(E.is_pos(e) for e in a[i]):
            continue
        if fork(E.eq(_sum([_fin(e) for e in a[i]]), 0)):
            raise RuntimeError("invalid multinomial distribution (sum of probabilities <= 0)")
    p.env.dists.append(("multinomial", a))
    r = fresh_tensor("multinomial", (a.shape[0], n), torch.int64, "I", 0, k - 1)
    for i in range(a.shape[0]):
        for j in range(n):
            p.assume(E.zb(E.lt(0, select_nochk([_fin(e) for e in a[i]], r._d[i, j]))))
            if not repl:
                for j2 in range(j):
                    p.assume(r._d[i, j] != r._d[i, j2])
    d = r._d if x._d.ndim == 2 else r._d[0]
    return SymTensor(d, torch.int64)


def _fin(e):
    return e.val if isinstance(e, E.Ext) else e


def select_nochk(xs, i):
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = E.ite(E.eq(i, j), xs[j], r)
    return r


@rnd("bernoulli")
def _(func, args, kwargs):
    x = to_sym(args[0])
    explore.CUR.env.dists.append(("bernoulli", x._d))
    r = fresh_tensor("bernoulli", tuple(x.shape), x.dtype, "I", 0, 1)
    for b, q in zip(r._d.reshape(-1), x._d.reshape(-1)):
        explore.CUR.assume(E.zb(E.b_and(E.b_or(E.eq(b, 0), E.lt(0, q)), E.b_or(E.eq(b, 1), E.lt(q, 1)))))
    return SymTensor(amap(lambda e: cast_elem(e, kind(x.dtype)), r._d), x.dtype)


@rnd("bernoulli_")
def _(func, args, kwargs):
    t = args[0]
    if not isinstance(t, SymTensor):
        with no_modes():
            return func(*args, **kwargs)
    q = unwrap(args[1] if len(args) > 1 else kwargs.get("p", 0.5))
    w = objarr(tuple(t.shape))
    w[...] = q
    explore.CUR.env.dists.append(("bernoulli", w))
    r = fresh_tensor("bernoulli", tuple(t.shape), t.dtype, "I", 0, 1)
    for b in r._d.reshape(-1):
        explore.CUR.assume(E.zb(E.b_and(E.b_or(E.eq(b, 0), E.lt(0, q)), E.b_or(E.eq(b, 1), E.lt(q, 1)))))
    t._d[...] = amap(lambda e: cast_elem(e, kind(t.dtype)), r._d)
    return t


@rnd("randperm")
def _(func, args, kwargs):
    n = args[0]
    r = fresh_tensor("randperm", (n,), torch.int64, "I", 0, n - 1)
    if n > 1:
        explore.CUR.add(z3.Distinct(*list(r._d)))
    return r


@rnd("exponential_")
def _(func, args, kwargs):
    t = args[0]
    r = fresh_tensor("exponential", tuple(t.shape), t.dtype, "R", 0, None, (True, False))
    lam = args[1] if len(args) > 1 else kwargs.get("lambd", 1)
    t._d[...] = amap(lambda u: E.div(u, unwrap(lam)), r._d)
    return t


@rnd("_sample_dirichlet")
def _(func, args, kwargs):
    x = to_sym(args[0])
    explore.CUR.env.dists.append(("dirichlet", x._d))
    r = fresh_tensor("dirichlet", tuple(x.shape), x.dtype, "R", 0, 1, (True, False))
    for i in np.ndindex(*x._d.shape[:-1]):
        explore.CUR.add(_sum(list(r._d[i])) == 1)
    return r


@rnd("native_dropout")
def _(func, args, kwargs):
    raise Unsupported("dropout in training mode")


# ------------------------------------------------------------------ modes
class SymDispatch(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def _has_S(x, depth=0):
    if isinstance(x, S):
        return True
    if isinstance(x, SymTensor):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_has_S(v, depth + 1) for v in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def _nested(x):
    """nested python lists with S / SymTensor leaves -> element array"""
    if isinstance(x, SymTensor):
        return x._d
    if isinstance(x, torch.Tensor):
        return lift(x)
    if isinstance(x, np.ndarray):
        a = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            a[i] = unwrap(x[i])
        return a
    if isinstance(x, (list, tuple)):
        if not x:
            return np.empty((0,), dtype=object)
        return np.stack([_scalar(v) if isinstance(v, torch.Tensor) else _nested(v) for v in x])
    a = np.empty((), dtype=object)
    a[()] = unwrap(x)
    return a


def _scalar(t):
    """a tensor inside a list counts as one number"""
    if t.numel() != 1:
        raise ValueError("only one element tensors can be converted to Python scalars")
    return lift(t).reshape(())


def _infer(a):
    fl = list(a.reshape(-1))
    if fl and all(E.is_bool(v) for v in fl):
        return torch.bool
    if fl and all(not isinstance(v, (E.Ext, Fraction)) and E.is_int(v) for v in fl):
        return torch.int64
    return torch.get_default_dtype()


def sym_tensor_ctor(data, dtype=None, device=None, requires_grad=False, **kw):
    a = _nested(data)
    if isinstance(data, SymTensor) and dtype is None:
        dtype = data.dtype
    dt = dtype or _infer_py(data, a)
    t = SymTensor(cast(a, dt), dt)
    if requires_grad:
        t.requires_grad_(True)
    return t


def _infer_py(data, a):
    def has_float(x):
        if isinstance(x, torch.Tensor):
            return x.dtype in FLOATS
        if isinstance(x, (float, np.floating)):
            return True
        if isinstance(x, np.ndarray):
            return x.dtype.kind == "f" or (x.dtype == object and any(has_float(v) for v in x.reshape(-1)))
        if isinstance(x, (list, tuple)):
            return any(has_float(v) for v in x)
        if isinstance(x, S):
            return not (E.is_bool(x.e) or (not isinstance(x.e, (E.Ext, Fraction)) and E.is_int(x.e)))
        return False
    if has_float(data):
        return torch.get_default_dtype()
    return _infer(a)


_CTORS = {}


_SIZED = (torch.zeros, torch.ones, torch.empty, torch.Tensor.view, torch.Tensor.reshape, torch.Tensor.repeat, torch.Tensor.expand,
          torch.reshape, torch.Tensor.narrow, torch.narrow, torch.eye)


_RESHAPE_ = {torch.Tensor.unsqueeze_: torch.Tensor.unsqueeze, torch.Tensor.squeeze_: torch.Tensor.squeeze,
             torch.Tensor.transpose_: torch.Tensor.transpose, torch.Tensor.t_: torch.Tensor.t}


class SymFunction(TorchFunctionMode):
    """python-level entry points that would concretise before the dispatcher is reached"""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func in (torch.tensor, torch.as_tensor, torch.asarray):
            data = args[0] if args else kwargs.get("data")
            if _has_S(data):
                if func is not torch.tensor and isinstance(data, SymTensor):
                    dt = kwargs.get("dtype") or (args[1] if len(args) > 1 else None)
                    return data if dt in (None, data.dtype) else data.to(dt)
                kw = {k: v for k, v in kwargs.items() if k != "data"}
                if len(args) > 1:
                    kw["dtype"] = args[1]
                return sym_tensor_ctor(data, **kw)
        elif func in _RESHAPE_ and isinstance(args[0], SymTensor):
            x = args[0]
            if x.requires_grad:
                raise Unsupported(f"{func.__name__} on a tensor that takes gradients")
            new = _RESHAPE_[func](*args, **kwargs)
            x.data = new
            x._d = new._d
            return x
        if args or kwargs:
            flat, _ = tree_flatten((args, kwargs))
            if any(isinstance(x, S) for x in flat):
                if func in (torch.full,):
                    size, v = (list(args) + [kwargs.get("fill_value")])[:2]
                    e = unwrap(v)
                    size = (size,) if isinstance(size, int) else size
                    dt = kwargs.get("dtype") or _infer_py(v, None if isinstance(v, float) else _nested(v))
                    return SymTensor(cast(objarr(size, e), dt), dt)
                if func in (torch.full_like,):
                    t = args[0]
                    return SymTensor(cast(objarr(t.shape, unwrap(args[1])), kwargs.get("dtype") or t.dtype),
                                     kwargs.get("dtype") or t.dtype)
                if func is torch.arange or func in _SIZED:
                    from torch.utils._pytree import tree_map
                    asint = lambda x: x.__index__() if isinstance(x, S) and E.is_int(x.e) and not E.is_bool(x.e) else x
                    args, kwargs = tree_map(asint, args), tree_map(asint, kwargs)
                elif func is torch.Tensor.__setitem__:
                    args = (args[0], _ix(args[1]), scalar_tensor(args[2]).to(args[0].dtype) if isinstance(args[2], S) else args[2])
                elif func is torch.Tensor.__getitem__:
                    args = (args[0], _ix(args[1]))
                elif func in (torch.clamp, torch.Tensor.clamp, torch.Tensor.clamp_, torch.Tensor.clip):
                    x = args[0]
                    lo = args[1] if len(args) > 1 else kwargs.get("min")
                    hi = args[2] if len(args) > 2 else kwargs.get("max")
                    lo = None if lo is None else (scalar_tensor(lo).to(x.dtype) if isinstance(lo, S) else torch.as_tensor(lo, dtype=x.dtype))
                    hi = None if hi is None else (scalar_tensor(hi).to(x.dtype) if isinstance(hi, S) else torch.as_tensor(hi, dtype=x.dtype))
                    if func is torch.Tensor.clamp_:
                        return x.copy_(torch.clamp(x, lo, hi))
                    args, kwargs = (x, lo, hi), {}
                else:
                    args, kwargs = lift_scalars(args), lift_scalars(kwargs)
        return func(*args, **kwargs)


def _ix(ix):
    if isinstance(ix, S):
        return ix.__index__() if E.is_int(ix.e) and not E.is_bool(ix.e) else bool(ix)
    if isinstance(ix, (tuple, list)):
        return type(ix)(_ix(i) for i in ix)
    return ix


@contextlib.contextmanager
def symbolic_torch():
    plain = torch.arange

    def arange(*a, **k):        # its argument parser rejects symbolic bounds before any mode sees the call
        asint = lambda x: x.__index__() if isinstance(x, S) and E.is_int(x.e) and not E.is_bool(x.e) else x
        return plain(*[asint(x) for x in a], **{n: asint(x) for n, x in k.items()})

    lift_numpy = torch.from_numpy

    def from_numpy(a):
        return sym_tensor_ctor(a) if isinstance(a, np.ndarray) and a.dtype == object else lift_numpy(a)

    torch.arange, torch.from_numpy = arange, from_numpy
    try:
        with SymFunction(), SymDispatch():
            yield
    finally:
        torch.arange, torch.from_numpy = plain, lift_numpy
