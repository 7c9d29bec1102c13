"""Evaluate a z3 term in floating point, reading the uninterpreted functions as the real ones."""
import math

from . import elem as E
from .z3load import z3

REAL = {"EXP": lambda x: math.exp(min(x, 700)), "LOG": lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
        "TANH": math.tanh, "SIGMOID": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
        "SQRT": lambda x: math.sqrt(x) if x >= 0 else math.nan, "ERF": math.erf,
        "ATANH": lambda x: math.atanh(x) if abs(x) < 1 else math.nan, "LGAMMA": math.lgamma,
        "SIN": math.sin, "COS": math.cos, "EXPM1": math.expm1, "LOG1P": math.log1p}


class CannotEval(Exception):
    pass


def evaluator(model, nets=None):
    """nets: {function name: callable}; constants are read from the z3 model"""
    memo = {}

    def val(t):
        k = t.get_id()
        if k in memo:
            return memo[k][0]
        r = _val(t)
        memo[k] = (r, t)
        return r

    def _val(t):
        K = t.decl().kind()
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else None
            return float(f) if f is not None else t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if K == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if t.num_args() == 0:
                return const(model.eval(t, model_completion=True))
            if n in REAL:
                return REAL[n](val(t.arg(0)))
            if n == "POW":
                try:
                    return val(t.arg(0)) ** val(t.arg(1))
                except ZeroDivisionError:
                    return math.inf
            if nets is not None and n in nets:
                return nets[n]([val(c) for c in t.children()])
            return const(model.eval(t, model_completion=True))
        if K == z3.Z3_OP_ITE:
            return val(t.arg(1)) if val(t.arg(0)) else val(t.arg(2))
        if K == z3.Z3_OP_AND:
            return all(val(c) for c in t.children())
        if K == z3.Z3_OP_OR:
            return any(val(c) for c in t.children())
        a = [val(c) for c in t.children()]
        if K == z3.Z3_OP_ADD:
            return sum(a)
        if K == z3.Z3_OP_MUL:
            r = 1
            for x in a:
                r = r * x
            return r
        if K == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r -= x
            return r
        if K == z3.Z3_OP_UMINUS:
            return -a[0]
        if K in (z3.Z3_OP_DIV,):
            if a[1] == 0:
                return math.nan
            return a[0] / a[1]
        if K == z3.Z3_OP_IDIV:
            return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
        if K == z3.Z3_OP_MOD:
            return a[0] % abs(a[1])
        if K == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if K == z3.Z3_OP_TO_REAL:
            return a[0]
        if K == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if K == z3.Z3_OP_IS_INT:
            return a[0] == math.floor(a[0])
        if K == z3.Z3_OP_NOT:
            return not a[0]
        if K == z3.Z3_OP_IMPLIES:
            return (not a[0]) or a[1]
        if K == z3.Z3_OP_XOR:
            return bool(a[0]) != bool(a[1])
        if K == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if K == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if K == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if K == z3.Z3_OP_LT:
            return a[0] < a[1]
        if K == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if K == z3.Z3_OP_GT:
            return a[0] > a[1]
        raise CannotEval(str(t.decl()))

    def const(v):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        raise CannotEval(str(v))

    def elem(e):
        if isinstance(e, E.Ext):
            b = lambda f: f if isinstance(f, bool) else val(f)
            if b(e.x):
                return math.nan
            if b(e.p):
                return math.inf
            if b(e.n):
                return -math.inf
            return elem(e.val)
        if isinstance(e, z3.ExprRef):
            return val(e)
        return E.to_float(e)
    return elem
