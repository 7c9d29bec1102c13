"""Scalar terms of the symbolic interpreter.

An element is one of
  bool / int / Fraction         a known value (reals are exact rationals)
  z3 BoolRef / ArithRef         a symbolic value (sort Bool, Int or Real)
  Ext(val, pinf, ninf, nan)     an extended real: at most one flag is true, val counts when none is
All arithmetic is exact (floats are read as reals, stated in every evidence file); +-inf and nan
follow IEEE rules, the sign of zero is ignored (0 is +0).
"""
from fractions import Fraction
import math

import numpy as np

from .z3load import z3

_Z = z3.ExprRef


class Unsupported(Exception):
    """The symbolic interpreter cannot encode this; reported as an inconclusive check."""

    def __init__(self, *a):
        super().__init__(*a)
        from . import explore
        if explore.CUR is not None:
            explore.CUR.unsupported.append(str(a[0]) if a else "")


class Ext:
    __slots__ = ("val", "p", "n", "x")

    def __init__(self, val=0, p=False, n=False, x=False):
        self.val, self.p, self.n, self.x = val, p, n, x

    def __repr__(self):
        return f"Ext({self.val},+inf={self.p},-inf={self.n},nan={self.x})"


PINF, NINF, NAN = Ext(0, p=True), Ext(0, n=True), Ext(0, x=True)


def num(f):
    """python/numpy number -> element"""
    if isinstance(f, (_Z, Ext)):
        return f
    if isinstance(f, (bool, np.bool_)):
        return bool(f)
    if isinstance(f, (int, np.integer)):
        return int(f)
    if isinstance(f, Fraction):
        return f.numerator if f.denominator == 1 else f
    if isinstance(f, np.float32):
        return _rat(f, np.float32)
    if isinstance(f, (float, np.floating)):
        return _rat(float(f), float)
    raise Unsupported(f"not a number: {type(f)}")


def _rat(f, ty):
    d = float(f)
    if math.isnan(d):
        return NAN
    if math.isinf(d):
        return PINF if d > 0 else NINF
    if d == int(d) and abs(d) < 2 ** 53:
        return int(d)
    c = Fraction(d).limit_denominator(4096)
    if ty(float(c)) == f:
        return c
    return Fraction(repr(float(d)) if ty is float else str(f))


def is_const(e):
    if isinstance(e, Ext):
        return isinstance(e.p, bool) and isinstance(e.n, bool) and isinstance(e.x, bool) and (
            e.p or e.n or e.x or not isinstance(e.val, _Z))
    return not isinstance(e, _Z)


def to_float(e):
    """constant element -> python number"""
    if isinstance(e, Ext):
        if e.x is True:
            return math.nan
        if e.p is True:
            return math.inf
        if e.n is True:
            return -math.inf
        return to_float(e.val)
    if isinstance(e, (bool, int)):
        return e
    return float(e)


def z(e):
    """element -> z3 term (bools stay Bool)"""
    if isinstance(e, _Z):
        return e
    if isinstance(e, bool):
        return z3.BoolVal(e)
    if isinstance(e, int):
        return z3.RealVal(e)
    if isinstance(e, Fraction):
        return z3.Q(e.numerator, e.denominator)
    raise Unsupported(f"non-finite value where a finite one is needed: {e}")


def _zi(e):
    if isinstance(e, _Z):
        return e
    if isinstance(e, bool):
        return z3.IntVal(int(e))
    if isinstance(e, int):
        return z3.IntVal(e)
    return z(e)


def is_bool(e):
    return isinstance(e, bool) or (isinstance(e, _Z) and z3.is_bool(e))


def is_int(e):
    return (isinstance(e, int)) or (isinstance(e, _Z) and (z3.is_int(e) or z3.is_bool(e)))


def arith(e):
    """bool -> 0/1"""
    if isinstance(e, bool):
        return int(e)
    if isinstance(e, _Z) and z3.is_bool(e):
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def _both(a, b):
    """coerce two finite arithmetic elements for a z3 operator"""
    if isinstance(a, _Z):
        if not isinstance(b, _Z):
            b = _zi(b) if z3.is_int(a) and isinstance(b, int) else z(b)
    elif isinstance(b, _Z):
        a = _zi(a) if z3.is_int(b) and isinstance(a, int) else z(a)
    return a, b


# ---------------------------------------------------------------- booleans
def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    out = []
    for a in xs:
        if isinstance(a, bool):
            if not a:
                return False
        else:
            out.append(a)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for a in xs:
        if isinstance(a, bool):
            if a:
                return True
        else:
            out.append(a)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_xor(a, b):
    if isinstance(a, bool):
        return b_not(b) if a else b
    if isinstance(b, bool):
        return b_not(a) if b else a
    return z3.Xor(a, b)


def truth(e):
    """element -> Bool element (nonzero test)"""
    if is_bool(e):
        return e
    return b_not(eq(e, 0))


def zb(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


# ---------------------------------------------------------------- arithmetic
def _ext(a):
    return a if isinstance(a, Ext) else Ext(a)


def mk_ext(val, p, n, x):
    if p is False and n is False and x is False:
        return val
    return Ext(val, p, n, x)


def isnan(a):
    return a.x if isinstance(a, Ext) else False


def isinf(a):
    return b_or(a.p, a.n) if isinstance(a, Ext) else False


def finite(a):
    return b_not(b_or(a.p, a.n, a.x)) if isinstance(a, Ext) else True


def neg(a):
    if isinstance(a, Ext):
        return Ext(neg(a.val), a.n, a.p, a.x)
    a = arith(a)
    return -a


def add(a, b):
    if isinstance(a, Ext) or isinstance(b, Ext):
        a, b = _ext(a), _ext(b)
        x = b_or(a.x, b.x, b_and(a.p, b.n), b_and(a.n, b.p))
        nx = b_not(x)
        return mk_ext(add(a.val, b.val), b_and(b_or(a.p, b.p), nx), b_and(b_or(a.n, b.n), nx), x)
    a, b = arith(a), arith(b)
    if not isinstance(a, _Z) and a == 0:
        return b
    if not isinstance(b, _Z) and b == 0:
        return a
    a, b = _both(a, b)
    if z3.is_div(a) and z3.is_div(b) and a.arg(1).eq(b.arg(1)):
        return div(a.arg(0) + b.arg(0), a.arg(1))
    return a + b


def sub(a, b):
    if isinstance(a, Ext) or isinstance(b, Ext):
        return add(a, neg(b))
    a, b = arith(a), arith(b)
    if not isinstance(b, _Z) and b == 0:
        return a
    if not isinstance(a, _Z) and a == 0:
        return -b
    if isinstance(a, _Z) and isinstance(b, _Z) and a.eq(b):
        return 0
    a, b = _both(a, b)
    return a - b


def mul(a, b):
    if isinstance(a, Ext) or isinstance(b, Ext):
        a, b = _ext(a), _ext(b)
        ia, ib = b_or(a.p, a.n), b_or(b.p, b.n)
        az = b_and(b_not(ia), b_not(a.x), eq(a.val, 0))
        bz = b_and(b_not(ib), b_not(b.x), eq(b.val, 0))
        x = b_or(a.x, b.x, b_and(ia, bz), b_and(ib, az))
        nx = b_not(x)
        inf = b_and(b_or(ia, ib), nx)
        apos = b_or(a.p, b_and(b_not(a.n), lt(0, a.val)))
        bpos = b_or(b.p, b_and(b_not(b.n), lt(0, b.val)))
        same = b_not(b_xor(apos, bpos))
        return mk_ext(mul(a.val, b.val), b_and(inf, same), b_and(inf, b_not(same)), x)
    a, b = arith(a), arith(b)
    for u, v in ((a, b), (b, a)):
        if not isinstance(u, _Z):
            if u == 0:
                return 0 if is_int(u) and is_int(v) else Fraction(0)
            if u == 1:
                return v
    for u, v in ((a, b), (b, a)):
        k = _const_ite(u)
        if k is not None:
            return ite(k[0], mul(k[1], v), mul(k[2], v))
    a, b = _both(a, b)
    return a * b


def _const_ite(u):
    """If(c, constant, constant) -> (c, k1, k2)"""
    if not isinstance(u, _Z):
        return None
    if z3.is_to_real(u):
        u = u.arg(0)
    if not z3.is_app_of(u, z3.Z3_OP_ITE):
        return None
    x, y = u.arg(1), u.arg(2)
    out = [u.arg(0)]
    for t in (x, y):
        if z3.is_rational_value(t):
            out.append(num(Fraction(t.numerator_as_long(), t.denominator_as_long())))
        elif z3.is_int_value(t):
            out.append(t.as_long())
        else:
            return None
    return out


def _toreal(a):
    if isinstance(a, _Z) and z3.is_int(a):
        return z3.ToReal(a)
    return a


def div(a, b):
    """true division"""
    from . import explore
    if isinstance(b, Ext):
        a = _ext(a)
        ia, ib = b_or(a.p, a.n), b_or(b.p, b.n)
        x = b_or(a.x, b.x, b_and(ia, ib))
        q = div(Ext(a.val, a.p, a.n, False), b.val) if not (isinstance(b.val, int) and b.val == 0) else Ext(0)
        q = _ext(q)
        # 1/inf = 0; inf/finite keeps q
        fin = b_not(ib)
        return mk_ext(ite(ib, 0, q.val), b_and(q.p, fin, b_not(x)), b_and(q.n, fin, b_not(x)),
                      b_or(x, b_and(q.x, fin)))
    a, b = arith(a), arith(b)
    if not isinstance(b, _Z):
        if b == 0:
            zero = True
        else:
            if isinstance(a, Ext):
                s = b > 0
                return mk_ext(div(a.val, b), a.p if s else a.n, a.n if s else a.p, a.x)
            if not isinstance(a, _Z):
                return num(Fraction(a) / Fraction(b))
            if b == 1:
                return a
            return _toreal(a) / z(b)
    else:
        zero = False if is_pos(b) else explore.may(b == 0)  # False, or the symbolic condition
    if zero is False:
        if isinstance(a, _Z) and isinstance(b, _Z) and a.eq(b):
            return 1
        if isinstance(a, Ext):
            pos = lt(0, b)
            return mk_ext(div(a.val, b), ite(pos, a.p, a.n), ite(pos, a.n, a.p), a.x)
        if not isinstance(a, _Z):
            if a == 0:
                return 0
            return z(a) / _toreal(b)
        return _toreal(a) / _toreal(b)
    a = _ext(a)
    afin = b_not(b_or(a.p, a.n, a.x))
    apos = b_or(a.p, b_and(afin, lt(0, a.val)))
    aneg = b_or(a.n, b_and(afin, lt(a.val, 0)))
    azero = b_and(afin, eq(a.val, 0))
    nz = b_not(zero)
    bpos = lt(0, b)
    q = 0 if zero is True else _toreal(z(a.val)) / _toreal(b)
    p = b_or(b_and(zero, apos), b_and(nz, ite(bpos, a.p, a.n)))
    n = b_or(b_and(zero, aneg), b_and(nz, ite(bpos, a.n, a.p)))
    return mk_ext(q, p, n, b_or(a.x, b_and(zero, azero)))


_HUGE = 3 * 10 ** 38   # symbolic reals are within the float32 range


def _huge(a, b):
    """order of a symbolic real against a float-range limit"""
    if isinstance(a, _Z) and not isinstance(b, _Z) and abs(b) >= _HUGE:
        return b > 0
    if isinstance(b, _Z) and not isinstance(a, _Z) and abs(a) >= _HUGE:
        return a < 0
    return None


def _quot(t):
    """(numerator, denominator) of a quotient or a choice of quotients with one denominator"""
    if not isinstance(t, _Z):
        return None
    if z3.is_div(t):
        return t.arg(0), t.arg(1)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        u, v = _quot(t.arg(1)), _quot(t.arg(2))
        if u and v and u[1].eq(v[1]):
            return z3.If(t.arg(0), u[0], v[0]), u[1]
    return None


def _expof(t):
    """x of EXP(x), through choices"""
    if is_app(t, "EXP"):
        return t.arg(0)
    if isinstance(t, _Z) and z3.is_app_of(t, z3.Z3_OP_ITE):
        u, v = _expof(t.arg(1)), _expof(t.arg(2))
        if u is not None and v is not None:
            return z3.If(t.arg(0), u, v)
    return None


def _order(a, b):
    """an equivalent pair to compare: quotients by the same positive number by their numerators, exponentials by their exponents"""
    qa, qb = _quot(a), _quot(b)
    if qa and qb and qa[1].eq(qb[1]) and is_pos(qa[1]) and not z3.is_rational_value(qa[1]):
        a, b = qa[0], qb[0]
    ea, eb = _expof(a), _expof(b)
    return (ea, eb) if ea is not None and eb is not None else (a, b)


def lt(a, b):
    if isinstance(a, Ext) or isinstance(b, Ext):
        a, b = _ext(a), _ext(b)
        nn = b_and(b_not(a.x), b_not(b.x))
        fa, fb = b_not(b_or(a.p, a.n)), b_not(b_or(b.p, b.n))
        return b_and(nn, b_or(b_and(a.n, b_not(b.n)), b_and(b.p, b_not(a.p)),
                              b_and(fa, fb, lt(a.val, b.val))))
    a, b = arith(a), arith(b)
    h = _huge(a, b)
    if h is not None:
        return h
    if isinstance(b, _Z) and not isinstance(a, _Z) and a <= 0 and is_pos(b):
        return True
    if isinstance(a, _Z) and not isinstance(b, _Z) and b <= 0 and is_pos(a):
        return False
    a, b = _both(*_order(a, b))
    if isinstance(a, _Z) and isinstance(b, _Z) and a.eq(b):
        return False
    return a < b


def le(a, b):
    if isinstance(a, Ext) or isinstance(b, Ext):
        return b_and(b_not(isnan(a)), b_not(isnan(b)), b_not(lt(b, a)))
    a, b = arith(a), arith(b)
    h = _huge(a, b)
    if h is not None:
        return h
    if isinstance(b, _Z) and not isinstance(a, _Z) and a <= 0 and is_pos(b):
        return True
    if isinstance(a, _Z) and not isinstance(b, _Z) and b <= 0 and is_pos(a):
        return False
    a, b = _both(*_order(a, b))
    if isinstance(a, _Z) and isinstance(b, _Z) and a.eq(b):
        return True
    return a <= b


def eq(a, b):
    if isinstance(a, Ext) or isinstance(b, Ext):
        a, b = _ext(a), _ext(b)
        nn = b_and(b_not(a.x), b_not(b.x))
        fa, fb = b_not(b_or(a.p, a.n)), b_not(b_or(b.p, b.n))
        return b_and(nn, b_or(b_and(a.p, b.p), b_and(a.n, b.n), b_and(fa, fb, eq(a.val, b.val))))
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return b_not(b_xor(a, b))
    a, b = arith(a), arith(b)
    a, b = _both(a, b)
    if isinstance(a, _Z) and isinstance(b, _Z) and a.eq(b):
        return True
    return a == b


def same(a, b):
    """identical as values (nan equals nan)"""
    return b_or(eq(a, b), b_and(isnan(a), isnan(b)))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, Ext) or isinstance(b, Ext):
        a, b = _ext(a), _ext(b)
        av, bv = a.val, b.val
        # the value of a constant non-finite branch is irrelevant
        if is_const(a) and (a.p or a.n or a.x):
            v = bv
        elif is_const(b) and (b.p or b.n or b.x):
            v = av
        else:
            v = ite(c, av, bv)
        return mk_ext(v, ite(c, a.p, b.p), ite(c, a.n, b.n), ite(c, a.x, b.x))
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else (c if a else b_not(c))
        if isinstance(a, bool):
            return b_or(c, b) if a else b_and(b_not(c), b)
        if isinstance(b, bool):
            return b_or(b_not(c), a) if b else b_and(c, a)
        return z3.If(c, a, b)
    a, b = arith(a), arith(b)
    if not isinstance(a, _Z) and not isinstance(b, _Z):
        if a == b:
            return a
        if isinstance(a, int) and isinstance(b, int):
            return z3.If(c, z3.IntVal(a), z3.IntVal(b))
        return z3.If(c, z(a), z(b))
    a, b = _both(a, b)
    if a.eq(b):
        return a
    if z3.is_int(a) != z3.is_int(b):
        a, b = _toreal(a), _toreal(b)
    return z3.If(c, a, b)


def emax(a, b):
    """maximum, nan-propagating"""
    r = ite(lt(a, b), b, a)
    if isinstance(a, Ext) or isinstance(b, Ext):
        x = b_or(isnan(a), isnan(b))
        if x is not False:
            r = ite(x, NAN, r)
    return r


def emin(a, b):
    r = ite(lt(b, a), b, a)
    if isinstance(a, Ext) or isinstance(b, Ext):
        x = b_or(isnan(a), isnan(b))
        if x is not False:
            r = ite(x, NAN, r)
    return r


def eabs(a):
    if isinstance(a, Ext):
        return mk_ext(eabs(a.val), b_or(a.p, a.n), False, a.x)
    a = arith(a)
    if not isinstance(a, _Z):
        return abs(a)
    return z3.If(a >= 0, a, -a)


def sign(a):
    return ite(lt(0, a), 1, ite(lt(a, 0), -1, 0))


def floor(a):
    if isinstance(a, Ext):
        return mk_ext(floor(a.val), a.p, a.n, a.x)
    a = arith(a)
    if not isinstance(a, _Z):
        return math.floor(a)
    return a if z3.is_int(a) else z3.ToInt(a)


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    a = arith(a)
    if isinstance(a, Ext):
        raise Unsupported("integer conversion of a possibly non-finite value")
    if not isinstance(a, _Z):
        return math.trunc(a)
    if z3.is_int(a):
        return a
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def rnd(a):
    """round half to even"""
    a = arith(a)
    if isinstance(a, Ext):
        return mk_ext(rnd(a.val), a.p, a.n, a.x)
    if not isinstance(a, _Z):
        return round(a)
    if z3.is_int(a):
        return a
    f = z3.ToInt(a)
    d = a - z3.ToReal(f)
    half = z3.Q(1, 2)
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def floordiv(a, b):
    a, b = arith(a), arith(b)
    if not isinstance(a, _Z) and not isinstance(b, _Z) and not isinstance(a, Ext) and not isinstance(b, Ext):
        return num(Fraction(a) // Fraction(b))
    if isinstance(b, int) and b > 0 and isinstance(a, _Z) and z3.is_int(a):
        return a / z3.IntVal(b)
    return floor(div(a, b))


def mod(a, b):
    """python-style remainder"""
    a, b = arith(a), arith(b)
    if not isinstance(a, _Z) and not isinstance(b, _Z):
        return num(Fraction(a) % Fraction(b))
    if isinstance(b, int) and b > 0 and isinstance(a, _Z) and z3.is_int(a):
        return a % z3.IntVal(b)
    return sub(a, mul(b, floordiv(a, b)))


# ------------------------------------------------- transcendental functions (uninterpreted + axioms)
_R = z3.RealSort()
UF = {n: z3.Function(n, _R, _R) for n in
      ("EXP", "LOG", "TANH", "SIGMOID", "SQRT", "ERF", "ATANH", "LGAMMA", "SIN", "COS", "EXPM1", "LOG1P")}
POW = z3.Function("POW", _R, _R, _R)

_PYF = {"EXP": math.exp, "LOG": math.log, "TANH": math.tanh, "SQRT": math.sqrt, "ERF": math.erf,
        "SIGMOID": lambda v: 1 / (1 + math.exp(-v)) if v > -700 else 0.0, "ATANH": math.atanh,
        "LGAMMA": math.lgamma, "SIN": math.sin, "COS": math.cos}


def _app(name, t):
    from . import explore
    t = _toreal(t) if isinstance(t, _Z) else z(t)
    t = z3.simplify(t)
    r = UF[name](t)
    explore.note_uf(name, t, r)
    return r


def is_app(e, name):
    return isinstance(e, _Z) and z3.is_app(e) and e.decl().eq(UF[name])


def is_pos(e):
    """syntactically positive (a cheap sufficient test)"""
    if not isinstance(e, _Z):
        return not isinstance(e, Ext) and e > 0
    if z3.is_rational_value(e):
        return e.numerator_as_long() > 0
    if is_app(e, "EXP") or is_app(e, "SIGMOID"):
        return True
    if z3.is_add(e) or z3.is_mul(e) or z3.is_div(e):
        return all(is_pos(c) for c in e.children())
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return is_pos(e.arg(1)) and is_pos(e.arg(2))
    if z3.is_app_of(e, z3.Z3_OP_POWER):
        return is_pos(e.arg(0))
    return False


def _monomials(s):
    """sum of products -> [(Fraction, atom or None)]"""
    out = []
    for t in (s.children() if z3.is_add(s) else [s]):
        if z3.is_rational_value(t):
            out.append((_frac(t), None))
        elif z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
            rest = t.children()[1:]
            out.append((_frac(t.arg(0)), rest[0] if len(rest) == 1 else z3.Product(*rest)))
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            out.append((Fraction(-1), t.arg(0)))
        else:
            out.append((Fraction(1), t))
    return out


def _frac(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def exp(a):
    """exp, normalised to a product of integer powers of EXP(atom)"""
    if isinstance(a, Ext):
        return mk_ext(ite(a.n, 0, exp(a.val)), a.p, False, a.x)
    a = arith(a)
    if not isinstance(a, _Z):
        if a == 0:
            return 1
        return _app("EXP", z(a)) if a > 0 else 1 / _app("EXP", z(-a))
    s = z3.simplify(_toreal(a), som=True)
    if z3.is_rational_value(s) and s.numerator_as_long() == 0:
        return 1
    r = 1
    den = 1
    for c, atom in _monomials(s):
        if atom is None:
            if c > 0:
                r = mul(r, _app("EXP", z(c)))
            else:
                den = mul(den, _app("EXP", z(-c)))
            continue
        if z3.is_to_real(atom) and z3.is_app_of(atom.arg(0), z3.Z3_OP_ITE):
            i = atom.arg(0)
            atom = z3.If(i.arg(0), z3.simplify(z3.ToReal(i.arg(1))), z3.simplify(z3.ToReal(i.arg(2))))
        if z3.is_app_of(atom, z3.Z3_OP_ITE):
            r = mul(r, ite(atom.arg(0), exp(mul(num(c), _unz(atom.arg(1)))), exp(mul(num(c), _unz(atom.arg(2))))))
            continue
        if c.denominator == 1 and abs(c) <= 6:
            base = atom.arg(0) if is_app(atom, "LOG") else _app("EXP", atom)
            k = int(c)
        else:
            base, k = _app("EXP", z3.simplify(z(c) * atom)), 1
        for _ in range(abs(k)):
            if k > 0:
                r = mul(r, base)
            else:
                den = mul(den, base)
    if not isinstance(den, _Z):
        return r
    return z(r) / den


def _factors(s):
    """numerator and denominator factors"""
    if z3.is_div(s):
        n1, d1 = _factors(s.arg(0))
        n2, d2 = _factors(s.arg(1))
        return n1 + d2, d1 + n2
    if z3.is_mul(s):
        n, d = [], []
        for c in s.children():
            a, b = _factors(c)
            n += a
            d += b
        return n, d
    return [s], []


def _hoist(s):
    """push numerals and int-to-real casts into an if-then-else of numerals"""
    if is_app_op(s, z3.Z3_OP_TO_REAL) and is_app_op(s.arg(0), z3.Z3_OP_ITE):
        c, a, b = s.arg(0).children()
        return z3.If(c, z3.ToReal(a), z3.ToReal(b))
    if is_app_op(s, z3.Z3_OP_ADD) and s.num_args() == 2:
        k, t = s.children()
        if z3.is_rational_value(k) and is_app_op(_hoist(t), z3.Z3_OP_ITE):
            c, a, b = _hoist(t).children()
            if all(z3.is_rational_value(z3.simplify(x)) or is_app_op(x, z3.Z3_OP_ITE) for x in (a, b)):
                return z3.If(c, z3.simplify(k + a), z3.simplify(k + b))
    return s


def is_app_op(t, op):
    return z3.is_app_of(t, op)


def log_base(a, base, exact):
    """logarithm to a base: the library's own number for constants, a quotient of logarithms otherwise"""
    if not isinstance(a, Ext):
        a = arith(a)
        if not isinstance(a, _Z):
            if a > 0:
                return num(exact(float(a)))
        else:
            s = z3.simplify(_toreal(a))
            if z3.is_rational_value(s):
                return log_base(_unz(s), base, exact)
            s = _hoist(s)
            if z3.is_app_of(s, z3.Z3_OP_ITE):
                return ite(s.arg(0), log_base(_unz(s.arg(1)), base, exact), log_base(_unz(s.arg(2)), base, exact))
    return div(log(a), num(math.log(base)))


def log(a):
    """log, split over the positive factors of its argument"""
    from . import explore
    if isinstance(a, Ext):
        b = _ext(log(a.val))
        nf = b_or(a.p, a.n, a.x)
        return mk_ext(b.val, b_or(a.p, b_and(b_not(nf), b.p)), b_and(b_not(nf), b.n),
                      b_or(a.x, a.n, b_and(b_not(nf), b.x)))
    a = arith(a)
    if not isinstance(a, _Z):
        if a == 1:
            return 0
        if a == 0:
            return NINF
        if a < 0:
            return NAN
        return _app("LOG", z(a))
    s = z3.simplify(_toreal(a))
    if z3.is_rational_value(s):
        return log(_unz(s))
    s = _hoist(s)
    if z3.is_app_of(s, z3.Z3_OP_ITE):
        return ite(s.arg(0), log(_unz(s.arg(1))), log(_unz(s.arg(2))))
    ns, ds = _factors(s)
    r, restn, restd = 0, [], []
    for f in ns:
        if is_app(f, "EXP"):
            r = add(r, f.arg(0))
        elif len(ns) + len(ds) > 1 and is_pos(f):
            r = add(r, log(_unz(f)))
        else:
            restn.append(f)
    for f in ds:
        if is_app(f, "EXP"):
            r = sub(r, f.arg(0))
        elif is_pos(f):
            r = sub(r, log(_unz(f)))
        else:
            restd.append(f)
    if not restn and not restd:
        return r
    t = restn[0] if len(restn) == 1 else (z3.Product(*restn) if restn else z3.RealVal(1))
    for f in restd:
        t = t / f
    t = z3.simplify(t)
    if z3.is_app_of(t, z3.Z3_OP_ITE) and len(ns) + len(ds) > 1:
        return add(r, log(t))
    bad = False if is_pos(t) else explore.may(t <= 0)
    u = _app("LOG", t)
    if bad is False:
        return add(r, u)
    return add(r, mk_ext(u, False, t == 0, t < 0))


def _unz(t):
    if z3.is_rational_value(t):
        f = t.as_fraction()
        return num(Fraction(f.numerator, f.denominator))
    return t


def unary(name, a):
    """odd/even helpers without special structure"""
    if isinstance(a, Ext):
        if name == "TANH" or name == "SIGMOID":
            lo = -1 if name == "TANH" else 0
            return mk_ext(ite(a.p, 1, ite(a.n, lo, unary(name, a.val))), False, False, a.x)
        raise Unsupported(f"{name} of a possibly non-finite value")
    a = arith(a)
    if not isinstance(a, _Z):
        if a == 0 and name in ("TANH", "ATANH", "SIN", "ERF"):
            return 0
        if a == 0 and name == "SIGMOID":
            return Fraction(1, 2)
        return _app(name, z(a))
    s = z3.simplify(_toreal(a))
    if z3.is_rational_value(s):
        return unary(name, _unz(s))
    if name == "ATANH" and is_app(s, "TANH"):
        return s.arg(0)
    if name == "TANH" and is_app(s, "ATANH"):
        return s
    return _app(name, s)


def sqrt(a):
    from . import explore
    if isinstance(a, Ext):
        raise Unsupported("sqrt of a possibly non-finite value")
    a = arith(a)
    if not isinstance(a, _Z):
        if a < 0:
            return NAN
        f = Fraction(a)
        p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if p * p == f.numerator and q * q == f.denominator:
            return num(Fraction(p, q))
        return _app("SQRT", z(a))
    s = z3.simplify(_toreal(a))
    bad = False if is_pos(s) else explore.may(s < 0)
    r = _app("SQRT", s)
    return r if bad is False else mk_ext(r, False, False, s < 0)


def power(a, b):
    if isinstance(b, Ext):
        raise Unsupported("power with non-finite exponent")
    b = arith(b)
    if not isinstance(b, _Z):
        if b == int(b):
            k = int(b)
            if k == 0:
                return 1
            if abs(k) <= 16:
                r = a
                for _ in range(abs(k) - 1):
                    r = mul(r, a)
                return r if k > 0 else div(1, r)
        if b == Fraction(1, 2):
            return sqrt(a)
        if b == Fraction(-1, 2):
            return div(1, sqrt(a))
        if not isinstance(a, Ext):
            a = arith(a)
            if not isinstance(a, _Z):
                if a in (0, 1) and b > 0:
                    return a
                return num(float(a) ** float(b))
    if isinstance(a, Ext):
        raise Unsupported("symbolic power of a possibly non-finite value")
    from . import explore
    a = arith(a)
    if not isinstance(a, _Z) and a == 1:
        return 1
    bs = z3.simplify(_toreal(z(b))) if isinstance(b, _Z) else z(b)
    as_ = z3.simplify(_toreal(a)) if isinstance(a, _Z) else z(a)
    r = POW(as_, bs)
    explore.note_pow(as_, bs, r)
    return r
