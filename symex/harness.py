"""Harness environments and the decision procedure around them.

A harness is a function h(env, **params).  It builds inputs through `env`, calls the real code of /repo and
states the property with env.eq / env.check.  It is run
  * symbolically (SymEnv): inputs are z3 variables, every path is explored, every statement becomes a
    verification condition for the solver;
  * concretely (ConcEnv): the same harness on ordinary torch tensors, to replay a counterexample on the real
    code and to validate the encoding.
"""
import builtins
import contextlib
import hashlib
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction
from unittest import mock

import numpy as np
import torch
import torch.nn as nn
from torch.utils._python_dispatch import TorchDispatchMode

from . import elem as E
from . import explore, tensor as T
from .elem import Unsupported
from .evalf import evaluator, CannotEval
from .pyfun import symbolic_python
from .scal import S, unwrap, wrap
from . import evalf, sweep
from .z3load import z3


class Skip(Exception):
    """concrete inputs outside the harness's assumptions"""


def _names(name, shape):
    if not shape:
        return [((), name)]
    return [(i, f"{name}[{','.join(map(str, i))}]") for i in np.ndindex(*shape)]


def _rng(seed, *parts):
    return random.Random(hashlib.sha256(repr((seed,) + parts).encode()).hexdigest())


_SORT = {torch.float32: "R", torch.float64: "R", torch.int64: "I", torch.int32: "I", torch.bool: "B",
         torch.uint8: "I", torch.int8: "I"}


def tensors_of(x):
    """tensors inside the inputs of a network, in order"""
    if x is None:
        return []
    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, (list, tuple)):
        return [t for v in x for t in tensors_of(v)]
    if isinstance(x, dict):
        return [t for k in sorted(x) for t in tensors_of(x[k])]
    if hasattr(x, "__dataclass_fields__"):
        return [t for k in x.__dataclass_fields__ for t in tensors_of(getattr(x, k, None))]
    return []


class StubNet(nn.Module):
    """An arbitrary network: each output is an uninterpreted function of its input row, plus a zero-valued
    trainable offset `theta` (so that d loss / d theta is the gradient at the network output); with
    grad_inputs the derivative with respect to every input element is uninterpreted as well."""

    def __init__(self, env, name, out, grad_inputs=False, wrap=None, row_dims=1, positive=False, bound=None):
        super().__init__()
        self.env, self.name_, self.out, self.grad_inputs = env, name, out, grad_inputs
        self.post = wrap
        self.row_dims = row_dims
        self.lo, self.hi = bound if bound else (None, None)
        if positive:
            self.lo = 0
        n = int(np.prod(out)) if not isinstance(out, int) else out
        self.theta = nn.Parameter(torch.zeros(n))
        self.calls = 0
        self.copies = []

    def __deepcopy__(self, memo):
        # the copy a trainer makes is the start of a target network: an unrelated function once training has moved on
        r = StubNet(self.env, f"{self.name_}~{len(self.copies)}", self.out, self.grad_inputs, self.post, self.row_dims)
        r.lo, r.hi = self.lo, self.hi
        self.copies.append(r)
        return r

    def forward(self, *args, **kw):
        self.calls += 1
        ts = tensors_of(list(args)) + tensors_of(kw)
        r = self.apply_rows(ts)
        return self.post(r) if self.post else r

    def apply_rows(self, ts):
        outshape = (self.out,) if isinstance(self.out, int) else tuple(self.out)
        lead = tuple(ts[0].shape[: self.row_dims])
        flat = [t.reshape(int(np.prod(lead)), -1) for t in ts]
        flat = [t if t.is_floating_point() else t.to(torch.float32) for t in flat]
        x = torch.cat(flat, dim=1) if len(flat) > 1 else flat[0]
        n = int(np.prod(outshape))
        vals, jac = [], []
        for row in self.env.rows(x.detach()):
            vals.append(self.env.net_eval(self.name_, row, n, self.lo, self.hi))
            if self.grad_inputs:
                jac.append([self.env.net_eval(f"{self.name_}.d{k}", row, n) for k in range(len(row))])
        out = self.env.mk(vals) + self.theta
        if self.grad_inputs:
            J = self.env.mk(jac)                               # rows, in, out
            out = out + (J * (x - x.detach()).unsqueeze(-1)).sum(dim=1)
        return out.reshape(lead + outshape)


class BaseEnv:
    def __init__(self):
        self.log = []          # (label, kind, a, b)
        self.netlog = {}
        self.dists = []        # (kind, parameters) of the discrete and Dirichlet draws
        self.rand_log = []     # (kind, standard draws) in the order the code asked for them

    # ---------------------------------------------------------------- inputs
    def real(self, name, *shape, lo=None, hi=None, open=False, grad=False, dtype=torch.float32):
        return self._tensor(name, shape, dtype, lo, hi, open, grad)

    def ints(self, name, *shape, lo, hi, dtype=torch.int64):
        return self._tensor(name, shape, dtype, lo, hi, False, False)

    def bools(self, name, *shape):
        return self._tensor(name, shape, torch.bool, None, None, False, False)

    def mask(self, name, *shape, dtype=torch.float32):
        """0/1 tensor of a float dtype"""
        return self._tensor(name, shape, torch.bool, None, None, False, False).to(dtype)

    def net(self, name, out, **kw):
        return StubNet(self, name, out, **kw)

    def patch(self, target, name, value):
        return mock.patch.object(target, name, value, create=True)

    def const(self, v, dtype=torch.float32):
        return torch.tensor(v, dtype=dtype)

    def draws(self, kind):
        """what torch's random operators of this kind returned so far, as standard draws (nested lists)"""
        if self.sym:
            return [self.L(T.SymTensor(a, torch.float32)) for n, a in self.rand if n == kind]
        return [v for n, v in self.rand_log if n == kind]

    def params(self, kind):
        """the parameters (weights, probabilities, concentrations) each draw of this kind was made with"""
        return [self.L(T.SymTensor(a, torch.float32)) if self.sym else a for n, a in self.dists if n == kind]

    # ---------------------------------------------------------------- elements
    def L(self, t):
        """tensor / array -> nested lists of numbers (S when symbolic)"""
        if isinstance(t, torch.Tensor):
            return t.detach().tolist()
        if isinstance(t, np.ndarray):
            return t.tolist()
        if isinstance(t, (list, tuple)):
            return [self.L(v) for v in t]
        return t

    @staticmethod
    def _flat(x):
        if isinstance(x, torch.Tensor):
            x = x.detach().tolist()
        if isinstance(x, np.ndarray):
            x = x.tolist()
        if isinstance(x, (list, tuple)):
            return [v for y in x for v in BaseEnv._flat(y)]
        return [x]

    def shape(self, t, shape, label):
        got = tuple(t.shape)
        self.check(got == tuple(shape), f"{label}: shape {got}, expected {tuple(shape)}")

    def eq(self, a, b, label, tol=None):
        fa, fb = self._flat(a), self._flat(b)
        if len(fa) != len(fb):
            self.check(False, f"{label}: {len(fa)} elements, expected {len(fb)}")
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self._eq(x, y, label if len(fa) == 1 else f"{label}[{i}]", tol)

    def close(self, a, b, label, tol):
        """equal up to an absolute constant `tol` the code uses on purpose (an epsilon)"""
        fa, fb = self._flat(a), self._flat(b)
        if len(fa) != len(fb):
            self.check(False, f"{label}: {len(fa)} elements, expected {len(fb)}")
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.le(x, y + tol, f"{label}[{i}] upper")
            self.le(y - tol, x, f"{label}[{i}] lower")

    def raises(self, f, *exc):
        """True when f() raises one of exc (by default a failed assertion); other exceptions propagate"""
        exc = exc or (AssertionError,)
        try:
            f()
        except Unsupported:
            raise
        except exc:
            return True
        return False


    def refuses(self, f, *exc):
        """f() must raise one of exc"""
        self.check(self.raises(f, *exc), "refused: " + "/".join(e.__name__ for e in exc or (AssertionError,)))


class SymEnv(BaseEnv):
    sym = True

    def __init__(self, path):
        super().__init__()
        self.p = path
        self.decl = {}       # name -> (sort, lo, hi)
        self.rand = []

    def _new(self, name, sort, lo, hi, open):
        assert name not in self.decl, name
        self.decl[name] = (sort, lo, hi, open)
        v = self.p.fresh(name, sort)
        if sort != "B":
            if lo is not None:
                lo = unwrap(lo)
                self.p.add(v > lo if open else v >= lo)
            if hi is not None:
                hi = unwrap(hi)
                self.p.add(v < hi if open else v <= hi)
        return v

    def _tensor(self, name, shape, dtype, lo, hi, open, grad):
        a = T.objarr(shape)
        for i, n in _names(name, shape):
            a[i] = self._new(n, _SORT[dtype], lo, hi, open)
        t = T.SymTensor(a, dtype)
        if grad:
            t.requires_grad_(True)
        return t

    def num(self, name, lo=None, hi=None, open=False):
        return S(self._new(name, "R", lo, hi, open))

    def inum(self, name, lo, hi):
        return S(self._new(name, "I", lo, hi, False))

    def flag(self, name):
        return S(self._new(name, "B", None, None, False))

    def pick(self, name, options):
        options = list(options)
        v = self._new(name, "I", 0, len(options) - 1, False)
        return options[self.p.choose(v)]

    def draw(self, name, sort, lo=None, hi=None, open=False):
        """a random source stubbed by the harness: arbitrary value in range"""
        k = sum(1 for n in self.decl if n.startswith(f"draw.{name}#"))
        return S(self._new(f"draw.{name}#{k}", sort, lo, hi, open))

    def assume(self, c):
        self.p.assume(E.zb(E.truth(unwrap(c))) if not isinstance(unwrap(c), bool) else bool(unwrap(c)))

    # --- stubs
    def rows(self, x):
        d = x._d if isinstance(x, T.SymTensor) else T.lift(x)
        return [list(r) for r in d]

    def mk(self, v):
        return T.sym(np.array(v, dtype=object))

    def net_eval(self, name, row, n, lo=None, hi=None):
        args = []
        for e in row:
            e = E.arith(e)
            if isinstance(e, E.Ext):
                raise Unsupported("non-finite network input")
            t = E.z(e)
            if z3.is_int(t):
                t = z3.ToReal(t)
            args.append(z3.simplify(t))
        key = (name, tuple(a.get_id() for a in args))
        log = self.netlog.setdefault(name, [])
        outs = []
        for j in range(n):
            f = z3.Function(f"net.{name}.{j}", *([z3.RealSort()] * (len(args) + 1)))
            outs.append(f(*args))
        if not any(k[:2] == key for k, _, _ in log):
            self.netseq = getattr(self, "netseq", 0) + 1
            key = key + (self.netseq,)
            log.append((key, args, outs))
            for o in outs:
                if lo is not None:
                    self.p.add(o > lo if lo == 0 else o >= E.z(E.num(lo)))
                if hi is not None:
                    self.p.add(o <= E.z(E.num(hi)))
        return outs

    # --- assertions
    def _eq(self, a, b, label, tol):
        self.log.append((label, "eq", unwrap(a), unwrap(b), len(self.p.pc)))

    def check(self, c, label):
        self.log.append((label, "bool", E.truth(unwrap(c)), None, len(self.p.pc)))

    def le(self, a, b, label):
        self.log.append((label, "le", unwrap(a), unwrap(b), len(self.p.pc)))

    def lt(self, a, b, label):
        self.log.append((label, "lt", unwrap(a), unwrap(b), len(self.p.pc)))


class ConcEnv(BaseEnv):
    sym = False
    TOL = 2e-3

    def __init__(self, inputs=None, nets=None, rand=None, seed=0, wide=2):
        super().__init__()
        self.inputs = dict(inputs or {})
        self.nets = nets or {}
        self.rand = [list(r) for r in (rand or [])]
        self.seed = seed
        self.used = {}
        self.failures = []
        self.nobl = 0
        self.wide = wide
        self.drawn = {}

    def _val(self, name, sort, lo, hi, open):
        if name in self.inputs:
            v = self.inputs[name]
            v = bool(v) if sort == "B" else int(v) if sort == "I" else float(v)
            if sort != "B":
                l, h = (None if lo is None else float(lo)), (None if hi is None else float(hi))
                if (l is not None and (v < l or (open and v <= l))) or (h is not None and (v > h or (open and v >= h))):
                    raise Skip(name)
        else:
            r = _rng(self.seed, "in", name)
            if sort == "B":
                v = r.random() < 0.5
            elif sort == "I":
                v = r.randint(int(lo) if lo is not None else -3, int(hi) if hi is not None else 3)
            else:
                l = float(lo) if lo is not None else (float(hi) - 2 * self.wide if hi is not None else -self.wide)
                h = float(hi) if hi is not None else (l + 2 * self.wide if lo is not None else self.wide)
                k = 16
                v = l + (h - l) * r.randint(1 if open else 0, k - 1 if open else k) / k
        self.used[name] = v
        return v

    def _tensor(self, name, shape, dtype, lo, hi, open, grad):
        vals = [self._val(n, _SORT[dtype], lo, hi, open) for _, n in _names(name, shape)]
        t = torch.tensor(vals, dtype=dtype).reshape(shape)
        if grad:
            t.requires_grad_(True)
        return t

    def num(self, name, lo=None, hi=None, open=False):
        return self._val(name, "R", lo, hi, open)

    def inum(self, name, lo, hi):
        return self._val(name, "I", lo, hi, False)

    def flag(self, name):
        return self._val(name, "B", None, None, False)

    def pick(self, name, options):
        options = list(options)
        return options[self._val(name, "I", 0, len(options) - 1, False)]

    def draw(self, name, sort, lo=None, hi=None, open=False):
        k = self.drawn.get(name, 0)
        self.drawn[name] = k + 1
        return self._val(f"draw.{name}#{k}", sort, lo, hi, open)

    def assume(self, c):
        if not bool(c):
            raise Skip("assumption")

    def rows(self, x):
        return x.detach().tolist()

    def mk(self, v):
        return torch.tensor(v, dtype=torch.float32)

    def net_eval(self, name, row, n, lo=None, hi=None):
        best, bd = None, 2e-3
        for args, outs in self.nets.get(name, []):
            if len(args) != len(row):
                continue
            d = max((abs(a - b) for a, b in zip(args, row)), default=0.0)
            if d < bd:
                best, bd = outs, d
        if best is None:
            r = _rng(self.seed, name, [round(v, 2) for v in row])
            l = lo if lo is not None else -2
            h = hi if hi is not None else l + 4
            best = [l + (h - l) * r.randint(1, 15) / 16 for _ in range(n)]
            self.nets.setdefault(name, []).append((list(row), best))
        return best

    def _eq(self, a, b, label, tol):
        self.nobl += 1
        a, b = float(a), float(b)
        self.log.append((label, "eq", a, b))
        if math.isnan(a) or math.isnan(b):
            ok = math.isnan(a) and math.isnan(b)
        elif math.isinf(a) or math.isinf(b):
            ok = a == b
        else:
            ok = abs(a - b) <= (tol or self.TOL) * (1 + max(abs(a), abs(b)))
        if not ok:
            self.failures.append((label, f"got {a:.6g}, expected {b:.6g}"))

    def check(self, c, label):
        self.nobl += 1
        self.log.append((label, "bool", bool(c), None))
        if not bool(c):
            self.failures.append((label, "condition is false"))

    def le(self, a, b, label):
        self.nobl += 1
        a, b = float(a), float(b)
        self.log.append((label, "le", a, b))
        if not (a <= b + self.TOL * (1 + abs(a)) if not math.isinf(b) or not math.isinf(a) else a <= b):
            self.failures.append((label, f"{a:.6g} <= {b:.6g} is false"))

    def lt(self, a, b, label):
        self.nobl += 1
        a, b = float(a), float(b)
        self.log.append((label, "lt", a, b))
        if not a < b:
            self.failures.append((label, f"{a:.6g} < {b:.6g} is false"))


class ConcRandom(TorchDispatchMode):
    """feeds recorded values to torch's random operators during a replay"""
    MAP = {"randn": "normal", "randn_like": "normal", "rand": "uniform", "rand_like": "uniform", "normal": "normal",
           "normal_": "normal", "uniform_": "uniform", "randint": "randint", "multinomial": "multinomial",
           "bernoulli": "bernoulli", "bernoulli_": "bernoulli", "randperm": "randperm", "exponential_": "exponential",
           "_sample_dirichlet": "dirichlet"}

    def __init__(self, rand, log=None, dists=None):
        super().__init__()
        self.q = list(rand)
        self.dists = dists if dists is not None else []
        self.log = log if log is not None else []

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        out = func(*args, **kwargs)
        n = self.MAP.get(func.overloadpacket.__name__)
        if n is None or not isinstance(out, torch.Tensor) or func.namespace != "aten":
            return out
        if n in ("multinomial", "bernoulli", "dirichlet"):
            w = args[0].detach().double()
            if func.overloadpacket.__name__ == "bernoulli_":
                w = torch.full_like(w, args[1] if len(args) > 1 else kwargs.get("p", 0.5))
            self.dists.append((n, (w if w.dim() > 1 or n != "multinomial" else w[None]).tolist()))
        for i, (name, shape, vals) in enumerate(self.q):
            if name == n and int(np.prod(shape)) == out.numel():
                del self.q[i]
                break
        else:
            self.log.append((n, self.standard(func, args, kwargs, out)))
            return out
        v = torch.tensor(vals, dtype=torch.float64).reshape(out.shape)
        self.log.append((n, v.tolist()))
        fn = func.overloadpacket.__name__
        if fn in ("normal", "normal_"):
            off = 1 if fn == "normal_" else 0
            mean = args[off] if len(args) > off else kwargs.get("mean", 0)
            std = args[off + 1] if len(args) > off + 1 else kwargs.get("std", 1)
            v = v * std + mean
        elif fn == "uniform_":
            lo = args[1] if len(args) > 1 else kwargs.get("from", 0)
            hi = args[2] if len(args) > 2 else kwargs.get("to", 1)
            v = v * (hi - lo) + lo
        return out.copy_(v.to(out.dtype)) if fn.endswith("_") else v.to(out.dtype)

    @staticmethod
    def standard(func, args, kwargs, out):
        """the standard draw behind a result: N(0, 1) for a normal, U[0, 1) for a uniform"""
        fn = func.overloadpacket.__name__
        v = out.detach().double()
        if fn in ("normal", "normal_"):
            off = 1 if fn == "normal_" else 0
            v = (v - (args[off] if len(args) > off else kwargs.get("mean", 0))) / (
                args[off + 1] if len(args) > off + 1 else kwargs.get("std", 1))
        elif fn == "uniform_":
            lo = args[1] if len(args) > 1 else kwargs.get("from", 0)
            hi = args[2] if len(args) > 2 else kwargs.get("to", 1)
            v = (v - lo) / (hi - lo)
        return v.tolist()


# ---------------------------------------------------------------------------------------- functions encoded
class FuncTrace:
    TOOL = 3

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "symex")
        m.register_callback(self.TOOL, m.events.PY_START, self._cb)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def _cb(self, code, off):
        if code.co_filename.startswith(REPO):
            self.seen.add(f"{code.co_filename[6:]}:{code.co_qualname}")
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)


# ---------------------------------------------------------------------------------------- solving
def _goal(kind, a, b):
    if kind == "eq":
        return E.same(a, b)
    if kind == "le":
        return E.le(a, b)
    if kind == "lt":
        return E.lt(a, b)
    return a


def _quick_true(kind, a, b):
    """settled by z3's normal form"""
    if kind == "eq" and not isinstance(a, E.Ext) and not isinstance(b, E.Ext):
        if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
            return E.arith(a) == E.arith(b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
            return True
        if E.is_bool(a) and E.is_bool(b):
            return None
        d = E.sub(E.arith(a), E.arith(b))
        if not isinstance(d, z3.ExprRef):
            return d == 0
        try:
            s = z3.simplify(d, som=True, max_steps=200000)
        except z3.Z3Exception:
            return None
        if (z3.is_rational_value(s) or z3.is_int_value(s)):
            return s.as_fraction() == 0 if z3.is_rational_value(s) else s.as_long() == 0
    return None


def purify(fs):
    """replace uninterpreted applications by constants with pairwise consistency constraints"""
    memo, apps, extra = {}, {}, []

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        ch = [go(c) for c in t.children()]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and ch:
            d = t.decl()
            lst = apps.setdefault(d.name(), [])
            c = None
            for a2, c2 in lst:
                if all(x.eq(y) for x, y in zip(a2, ch)):
                    c = c2
            if c is None:
                c = z3.FreshConst(t.sort(), "ap")
                for a2, c2 in lst:
                    extra.append(z3.Implies(z3.And(*[x == y for x, y in zip(a2, ch)]), c == c2))
                lst.append((ch, c))
            r = c
        elif ch and any(not x.eq(y) for x, y in zip(ch, t.children())):
            r = t.decl()(*ch)
        else:
            r = t
        memo[k] = (r, t)
        return r
    out = [go(f) for f in fs]
    return out + extra


REPO = (os.environ.get("HZ_DEV_REPO") or "/repo") + "/"
_G = [0, -1, 1, -0.5, 0.5, -2, 2, -0.25, 0.25, -4, 4]
GRID = {"EXP": _G, "TANH": _G, "SIGMOID": _G, "LOG": [1, 0.5, 2, 0.25, 4, 0.75, 1.5, 0.125, 8, 0.0625], "SQRT": [1, 4, 0.25, 2, 0.5, 9], "SIN": _G, "COS": _G,
        "LGAMMA": [1, 2, 3, 0.5, 1.5, 4]}


def _mentions(t, names):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            return True
        st.extend(x.children())
    return False


def _solve(fs, timeout_ms, tactic=None):
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set("timeout", int(timeout_ms))
    s.add(*fs)
    t = time.time()
    r = s.check()
    explore.STATS["queries"] += 1
    explore.STATS["solver_s"] += time.time() - t
    return r, (s.model() if r == z3.sat else None)


def _plain(e):
    return not isinstance(e, E.Ext) and not E.is_bool(e)


def decide(fs, budget_s, pair=None, early=None):
    """sat / unsat / unknown, trying several procedures"""
    r, m = _solve(fs, 1000 * min(0.5, budget_s))
    if r != z3.unknown:
        return r, m
    if pair is not None and (isinstance(pair[0], E.Ext) or isinstance(pair[1], E.Ext)):
        x, y = (p if isinstance(p, E.Ext) else E.Ext(p) for p in pair)
        bad = E.b_or(x.p, x.n, x.x, y.p, y.n, y.x)
        if bad is False or (bad is not True and _solve(fs[:-1] + [bad], 3000)[0] == z3.unsat):
            pair = (x.val, y.val)
    if pair is not None and _plain(pair[0]) and _plain(pair[1]):
        v, m = sweep.split_equal(pair[0], pair[1], fs[:-1], min(15, budget_s))
        if v == "equal":
            return z3.unsat, None
        if v == "differ":
            return z3.sat, m
    if early is not None and early():
        return "found", None
    if pair is not None and _plain(pair[0]) and _plain(pair[1]):
        if sweep.prove_equal(pair[0], pair[1], fs[:-1], budget_s):
            return z3.unsat, None
    try:
        pf = purify(fs)
    except z3.Z3Exception:
        pf = None
    if pf is not None:
        tac = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "simplify", "tseitin-cnf", "qfnra-nlsat") \
            if False else z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra")
        try:
            r, m2 = _solve(pf, 1000 * min(15, budget_s), tac)
            if r == z3.unsat:
                return r, None
        except z3.Z3Exception:
            pass
        try:
            r, m2 = _solve(pf, 1000 * min(10, budget_s))
            if r == z3.unsat:
                return r, None
        except z3.Z3Exception:
            pass
    r, m = _solve(fs, 1000 * budget_s)
    if r == z3.unknown:
        explore.STATS["unknown"] += 1
    return r, m


class Case:
    def __init__(self, fn, params, tier, bounds, name, max_paths, vc_s, budget_s):
        self.fn, self.params, self.tier, self.bounds, self.name = fn, params, tier, bounds, name
        self.max_paths, self.vc_s, self.budget_s = max_paths, vc_s, budget_s


class Suite:
    def __init__(self, prop, assumptions=()):
        self.prop, self.cases, self.assumptions = prop, [], list(assumptions)

    def case(self, tier="quick", bounds="", name=None, max_paths=2000, vc_s=20, budget_s=240, **params):
        def deco(fn):
            n = name or fn.__name__
            if params:
                n += "(" + ",".join(f"{k}={v}" for k, v in params.items()) + ")"
            self.cases.append(Case(fn, params, tier, bounds, n, max_paths, vc_s, budget_s))
            return fn
        return deco


def _r8(v):
    return round(v * 8) / 8


class CaseRun:
    def __init__(self, case, seed=0, validate=4):
        self.case, self.seed, self.validate = case, seed, validate
        self.violations = []      # dicts with label, detail, replay
        self.problems = []        # inconclusive
        self.obl = self.discharged = self.byform = 0
        self.retries, self.t0 = 0, time.time()
        self.paths = self.infeasible = 0
        self.validated = self.val_outs = 0
        self.reached = set()
        self.labels = set()
        self.sample = None
        self.ops = 0
        self.funcs = set()

    # --- concrete execution
    def conc(self, inputs=None, nets=None, rand=None, seed=0):
        """-> (env, failures, status) on the real code"""
        env = ConcEnv(inputs, {k: list(v) for k, v in (nets or {}).items()}, rand, seed)
        torch.manual_seed(seed)
        random.seed(seed)
        np.random.seed(seed)
        torch.set_grad_enabled(True)
        cur, explore.CUR = explore.CUR, None
        try:
            with ConcRandom(env.rand, env.rand_log, env.dists):
                self.case.fn(env, **self.case.params)
        except Skip as e:
            return env, [], "skip"
        except Exception as e:
            return env, [(f"raises {type(e).__name__}", "".join(traceback.format_exception_only(e)).strip()[:300])], "raised"
        finally:
            explore.CUR = cur
        return env, env.failures, "ok"

    def assignment(self, env, model, rounder=None):
        ev = evaluator(model)
        rd = rounder or (lambda v: v)
        inputs = {}
        for n, (sort, lo, hi, op) in env.decl.items():
            v = ev(env.p.vars[n])
            inputs[n] = rd(v) if sort == "R" else (bool(v) if sort == "B" else int(v))
        nets = {}
        for name, log in env.netlog.items():
            nets[name] = []
        # evaluate network arguments bottom-up, with the (rounded) table values for inner networks
        table = {}
        order = sorted(((name, e) for name, log in env.netlog.items() for e in log), key=lambda x: x[1][0][2])

        def mkfun(name, j):
            def f(args):
                for a, o in nets[name]:
                    if len(a) == len(args) and max((abs(x - y) for x, y in zip(a, args)), default=0) < 1e-6:
                        return o[j]
                return 0.0
            return f
        funs = {f"net.{n}.{j}": mkfun(n, j) for n, log in env.netlog.items() if log for j in range(len(log[0][2]))}
        for name, (key, args, outs) in order:
            e2 = evaluator(_RoundModel(model, inputs, env), funs)
            a = [float(e2(x)) for x in args]
            nets[name].append((a, [rd(float(ev(o))) for o in outs]))
        rand = [(n, list(arr.shape), [float(ev(v)) if not isinstance(ev(v), bool) else float(ev(v)) for v in arr.reshape(-1)])
                for n, arr in env.rand]
        return {"inputs": inputs, "nets": nets, "rand": rand}

    def report(self, label, detail, asg, seed=0, how="solver model"):
        self.violations.append({"label": label, "detail": detail, "how": how, "case": self.case.name,
                                "replay": {"case": self.case.name, "seed": seed, **(asg or {})}})

    def try_replay(self, env, model, label):
        for rd in (_r8, None):
            try:
                asg = self.assignment(env, model, rd)
            except (CannotEval, Exception):
                continue
            cenv, fails, st = self.conc(**asg)
            if fails:
                l, d = next((f for f in fails if f[0] == label), fails[0])
                asg = {"inputs": cenv.used, "nets": cenv.nets, "rand": asg["rand"]}
                self.report(l, d, asg)
                return True
        return False

    def search(self, env, model, label, n=60, secs=20):
        """look for a concrete witness once the solver cannot confirm the property"""
        t0 = time.time()
        base = None
        if model is not None:
            try:
                base = self.assignment(env, model, _r8)
            except Exception:
                base = None
        for k in range(n):
            if time.time() - t0 > secs:
                break
            if base is not None and k % 2 == 0:
                inp = {a: b for a, b in base["inputs"].items() if not (env.decl[a][0] == "R")}
                asg = {"inputs": inp, "rand": base["rand"] if k % 4 == 0 else []}
            else:
                asg = {}
            cenv, fails, st = self.conc(seed=self.seed * 1000 + k + 1, **asg)
            if fails:
                l, d = next((f for f in fails if f[0] == label), fails[0])
                self.report(l, d, {"inputs": cenv.used, "nets": cenv.nets, "rand": asg.get("rand", [])},
                            seed=self.seed * 1000 + k + 1, how="concrete witness after an open solver verdict")
                return True
        return False

    def attained(self):
        """the solver could not decide whether a path exists: a real run on arbitrary inputs meeting every assumption shows that one does"""
        for k in range(40):
            _, fails, st = self.conc(seed=self.seed * 1000 + k + 1)
            if fails or st == "ok":
                return not fails
        return False

    # --- the main loop
    def run(self):
        t_end = time.time() + self.case.budget_s
        ft = FuncTrace()

        def body(p):
            env = SymEnv(p)
            p.env = env
            p.status = None
            T._LOGS.append(lambda n, a: env.rand.append((n, a.copy())))
            torch.set_grad_enabled(True)
            try:
                with ft:
                    with T.symbolic_torch(), symbolic_python():
                        return self.case.fn(env, **self.case.params)
            finally:
                T._LOGS.clear()

        last = None
        try:
            for p, res, exc in explore.explore(body, self.case.max_paths, t_end):
                self.paths += 1
                env = last = p.env
                if isinstance(exc, (Unsupported, explore.Budget)) or (exc is None and p.unsupported):
                    self.problem(f"{type(exc).__name__ if exc else 'Unsupported'}: {exc or p.unsupported[0]}", env, exc)
                    if len(self.problems) > 3:
                        break
                    continue
                self.do_path(p, env, exc)
                if len(self.violations) >= 3 or len(self.problems) > 5:
                    break
        except explore.Budget as e:
            self.problem(f"Budget: {e}", last, e)
        self.funcs = ft.seen
        if not self.violations and not self.problems:
            if not self.obl:
                self.problem("no obligation was reached", None, None)
            elif not self.reached and not self.attained():
                self.problem("vacuous: no path to an assertion was shown satisfiable", None, None)
        return self

    def problem(self, msg, env, exc, model=None, label=None):
        if env is not None or True:
            if self.search(env, model, label):
                return
        if exc is not None:
            tb = traceback.extract_tb(exc.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-6:]
            msg += "  at " + " < ".join(reversed(where))
        self.problems.append(msg)

    def do_path(self, p, env, exc):
        seen_vc = set()
        for (label, kind, a, b, npc) in env.log:
            base = label.split("[")[0]
            self.labels.add(base)
            self.obl += 1
            q = _quick_true(kind, a, b)
            if q is True:
                self.discharged += 1
                self.byform += 1
                continue
            g = _goal(kind, a, b)
            if g is True:
                self.discharged += 1
                self.byform += 1
                continue
            neg = E.zb(E.b_not(g))
            vk = (neg.get_id(), npc)
            if vk in seen_vc:
                self.discharged += 1
                continue
            fs = p.pc[:npc] + p.axioms + [neg]
            r, m = decide(fs, self.case.vc_s, (a, b) if kind == "eq" else None,
                          lambda: self.search(env, None, label, n=16, secs=6))
            if r == "found":
                return
            if r == z3.unsat:
                self.discharged += 1
                seen_vc.add(vk)
                continue
            if r == z3.sat:
                # look for a robust, readable model
                for extra in self.nice(env, kind, a, b):
                    r2, m2 = _solve(fs + extra, 4000)
                    if r2 == z3.sat and self.try_replay(env, m2, label):
                        return
                if self.try_replay(env, m, label):
                    return
                if self.grounded(env, fs, label) or self.search(env, m, label):
                    return
                if os.environ.get("SYMEX_DEBUG"):
                    print("SPURIOUS", label, kind, "\n A", str(a)[:3000], "\n B", str(b)[:3000])
                self.problems.append(f"{label}: counterexample did not reproduce on the real code")
                return
            if self.grounded(env, fs, label):
                return
            if self.retries < 2 and time.time() - self.t0 < 0.6 * self.case.budget_s:
                # once more with room to spare: the machine may have been busy
                self.retries += 1
                if decide(fs, 3 * self.case.vc_s, (a, b) if kind == "eq" else None)[0] == z3.unsat:
                    self.discharged += 1
                    seen_vc.add(vk)
                    continue
            self.problem(f"{label}: solver answered unknown", env, None, None, label)
            if self.violations:
                return
        if exc is not None:
            label = f"raises {type(exc).__name__}"
            self.obl += 1
            r, m = decide(p.pc + p.axioms, self.case.vc_s)
            if r == z3.unsat:
                self.infeasible += 1
                self.discharged += 1
                return
            msg = "".join(traceback.format_exception_only(exc)).strip()[:200]
            tb = traceback.extract_tb(exc.__traceback__)
            where = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-5:]))
            if m is not None:
                for extra in self.nice(env, "bool", None, None):
                    r2, m2 = _solve(p.pc + p.axioms + extra, 4000)
                    if r2 == z3.sat and self.try_replay(env, m2, label):
                        return
                if self.try_replay(env, m, label):
                    return
            if self.search(env, m, label):
                return
            self.problems.append(f"symbolic run raised {msg} at {where}; it did not reproduce on the real code")
            return
        if env.log and self.validated < self.validate:
            self.validate_path(p, env)
        elif env.log and not self.reached:
            if p.feasible(True) and _solve(p.pc + p.axioms, 5000)[0] == z3.sat:
                self.reached.add(1)

    def nice(self, env, kind, a, b):
        small, apps = [], []
        for n, (sort, lo, hi, op) in env.decl.items():
            if sort == "R" and (lo is None or hi is None):
                v = env.p.vars[n]
                small.append(v <= (4 if lo is None or not isinstance(lo, (int, float)) or lo < 4 else lo + 4))
                small.append(v >= (-4 if hi is None or not isinstance(hi, (int, float)) or hi > -4 else hi - 4))
        for _, log in env.netlog.items():
            for _, _, outs in log:
                for o in outs:
                    apps += [o <= 8, o >= -8]
        for _, arr in env.rand:
            for v in arr.reshape(-1):
                if z3.is_real(v):
                    apps += [v <= 4, v >= -4]
        out = []
        if kind in ("eq", "le", "lt") and not isinstance(a, E.Ext) and not isinstance(b, E.Ext) and \
                not (E.is_bool(a) and E.is_bool(b)):
            d = E.sub(a, b)
            if isinstance(d, z3.ExprRef):
                for mar in (z3.Q(1, 2), z3.Q(1, 16)):
                    out.append(small + apps + [z3.Or(d >= mar, d <= -mar) if kind == "eq" else d >= mar])
        out.append(small + apps)
        return out

    def grounded(self, env, fs, label):
        """a model in which the innermost transcendental applications have their real values: arguments are confined to a grid"""
        apps, seen, st = [], set(), list(fs)
        names = set(GRID)
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names:
                apps.append(t)
            st.extend(t.children())
        inner = [a for a in apps if not _mentions(a.arg(0), names)]
        if not inner or len(inner) > 16:
            return False
        pins = []
        for a in inner:
            n, alts = a.decl().name(), []
            for g in GRID[n]:
                v = evalf.REAL[n](g)
                w = abs(v) * 1e-9 + 1e-12
                q = Fraction(v).limit_denominator(10 ** 12)
                alts.append(z3.And(a.arg(0) == E.z(Fraction(g)), a >= E.z(q - Fraction(w)), a <= E.z(q + Fraction(w))))
            pins.append(z3.Or(*alts))
        for extra in self.nice(env, "bool", None, None) + [[]]:
            r, m = _solve(list(fs) + pins + extra, 5000)
            if r == z3.sat and self.try_replay(env, m, label):
                return True
        return False

    def validate_path(self, p, env):
        """run the real code on a solver-chosen input of this path and compare it with the encoding"""
        m = None
        for extra in (self.nice(env, "bool", None, None)[0], []):
            r, m = _solve(p.pc + p.axioms + extra, 5000)
            if r == z3.sat:
                break
        if r != z3.sat:
            return
        self.reached.add(1)
        try:
            asg = self.assignment(env, m, None)
            ev = evaluator(m)
            if not all(ev(c) for c in p.pc):
                return
        except CannotEval:
            return
        cenv, fails, st = self.conc(**asg)
        if st == "skip":
            return
        if fails:
            self.report(fails[0][0], fails[0][1], {"inputs": cenv.used, "nets": cenv.nets, "rand": asg["rand"]},
                        how="validation run of the real code")
            return
        self.validated += 1
        if [l[0] for l in cenv.log] == [l[0] for l in env.log]:
            for (lab, kind, a, b, _), (_, _, ca, cb) in zip(env.log, cenv.log):
                if kind == "bool":
                    continue
                try:
                    va, vb = float(ev(a)), float(ev(b))
                except (CannotEval, OverflowError):
                    continue
                for x, y in ((va, ca), (vb, cb)):
                    if math.isnan(x) and not math.isnan(y) and not isinstance(a, E.Ext) and not isinstance(b, E.Ext):
                        continue    # overflow inside the floating-point evaluation of the term
                    ok = (math.isnan(x) and math.isnan(y)) or x == y or \
                        (not math.isinf(x) and not math.isinf(y) and abs(x - y) <= 5e-3 * (1 + max(abs(x), abs(y))))
                    self.val_outs += 1
                    if not ok:
                        self.problems.append(f"encoding mismatch at {lab}: symbolic {x:.6g}, real code {y:.6g}")
                        if os.environ.get("SYMEX_DEBUG"):
                            print("MISMATCH", lab, kind, x, y, cenv.used, cenv.nets, str(a)[:1500])
                        return
        if self.sample is None:
            self.sample = {"case": self.case.name, "inputs": {k: (round(v, 4) if isinstance(v, float) else v)
                                                              for k, v in list(cenv.used.items())[:12]},
                           "checked": [[l[0], l[2] if not isinstance(l[2], float) else round(l[2], 5),
                                        l[3] if not isinstance(l[3], float) else round(l[3], 5)] for l in cenv.log[:4]]}


class _RoundModel:
    """a model whose input constants take the rounded values"""

    def __init__(self, model, inputs, env):
        self.m = model
        self.over = {}
        for n, v in inputs.items():
            self.over[env.p.vars[n].get_id()] = v

    def eval(self, t, model_completion=True):
        k = t.get_id()
        if k in self.over:
            v = self.over[k]
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if isinstance(v, int):
                return z3.IntVal(v) if z3.is_int(t) else z3.RealVal(v)
            f = Fraction(v)
            return z3.Q(f.numerator, f.denominator)
        return self.m.eval(t, model_completion=model_completion)
