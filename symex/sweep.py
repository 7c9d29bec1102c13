"""Equality of two terms by solver sweeping: subterms that agree on sample valuations are proved equal one by
one (small queries) and merged, until both sides have the same normal form."""
import hashlib
import math
import random
import time

from . import elem as E
from . import explore
from .evalf import evaluator, CannotEval
from .z3load import z3


class _Vals:
    """a valuation of constants standing in for a z3 model"""

    def __init__(self, m, over):
        self.m, self.over = m, over

    def eval(self, t, model_completion=True):
        v = self.over.get(t.get_id())
        return v if v is not None else self.m.eval(t, model_completion=model_completion)


def _consts(ts):
    seen, out, st = set(), [], list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        st.extend(t.children())
    return out


def _apps(ts):
    seen, out, st = set(), [], list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name().startswith("net."):
            out.append(t)
        st.extend(t.children())
    return out


def models(fs, terms, k=4, secs=6):
    """diverse models of fs: randomly pinned constants and network outputs"""
    rng = random.Random(7)
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", 1000)
    s.add(*fs)
    out = []
    pins = _consts(list(fs) + terms) + _apps(terms)
    for _ in range(k):
        s.push()
        order = list(pins)
        rng.shuffle(order)
        for c in order:
            if time.time() - t0 > secs:
                break
            if z3.is_real(c):
                v = z3.Q(rng.randint(-64, 64), 16)
            elif z3.is_int(c):
                v = z3.IntVal(rng.randint(0, 3))
            elif z3.is_bool(c):
                v = z3.BoolVal(rng.random() < 0.5)
            else:
                continue
            s.push()
            s.add(c == v)
            if s.check() != z3.sat:
                s.pop()
                # keep the constraint out; the frame is gone
            # a satisfiable pin stays on the stack
        if s.check() == z3.sat:
            out.append(s.model())
        while s.num_scopes():
            s.pop()
        if time.time() - t0 > secs:
            break
    explore.STATS["queries"] += len(out)
    return out


def nodes(ts):
    seen, out = set(), []

    def go(t):
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if x.get_id() in seen:
                continue
            if done:
                seen.add(x.get_id())
                out.append(x)
            else:
                st.append((x, True))
                for c in x.children():
                    st.append((c, False))
    for t in ts:
        go(t)
    return out


def prove_equal(a, b, fs, secs=20):
    """True when a == b under fs was proved"""
    a, b = E.arith(a), E.arith(b)
    if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
        a, b = E.z(a), E.z(b)
    a, b = z3.simplify(a), z3.simplify(b)
    t0 = time.time()
    ms = models(fs, [a, b])
    if not ms:
        return False
    evs = [evaluator(m) for m in ms]
    s = z3.Solver()
    s.add(*fs)
    classes = {}
    memo = {}
    nq = 0
    for t in nodes([a, b]):
        ch = t.children()
        nc = [memo[c.get_id()] for c in ch]
        r = t if all(x.eq(y) for x, y in zip(ch, nc)) else (t.decl()(*nc) if not z3.is_app_of(t, z3.Z3_OP_ADD) and not z3.is_mul(t)
                                                            else (z3.Sum(nc) if z3.is_add(t) else z3.Product(nc)))
        if (z3.is_real(t) or z3.is_int(t)) and ch and not z3.is_rational_value(t) and not z3.is_int_value(t):
            r = z3.simplify(r)
            try:
                sig = []
                for e in evs:
                    v = e(t)
                    sig.append("nan" if isinstance(v, float) and math.isnan(v) else f"{v:.8g}" if abs(v) > 1e-9 else "0")
                sig = (z3.is_int(t), tuple(sig))
            except (CannotEval, OverflowError, ValueError):
                sig = None
            if sig is not None:
                for rep in classes.get(sig, [])[:6]:
                    if rep.eq(r):
                        r = rep
                        break
                    if time.time() - t0 > secs:
                        break
                    d = z3.simplify(rep - r, som=True)
                    ok = (z3.is_rational_value(d) and d.as_fraction() == 0) or (z3.is_int_value(d) and d.as_long() == 0)
                    if not ok:
                        s.set("timeout", 700)
                        tq = time.time()
                        res = s.check(rep != r)
                        explore.STATS["queries"] += 1
                        explore.STATS["solver_s"] += time.time() - tq
                        ok = res == z3.unsat
                    if ok:
                        r = rep
                        break
                else:
                    classes.setdefault(sig, []).append(r)
        memo[t.get_id()] = r
    ra, rb = memo[a.get_id()], memo[b.get_id()]
    if ra.eq(rb):
        return True
    # abstract the remaining case distinctions and compare as polynomials
    sub = []
    for t in nodes([ra, rb]):
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not z3.is_bool(t):
            sub.append(t)
    # outermost first so that nested ones vanish with their parent
    x, y = ra, rb
    for t in reversed(sub):
        f = z3.FreshConst(t.sort(), "sw")
        x, y = z3.substitute(x, (t, f)), z3.substitute(y, (t, f))
    d = z3.simplify(x - y, som=True)
    if (z3.is_rational_value(d) and d.as_fraction() == 0) or (z3.is_int_value(d) and d.as_long() == 0):
        return True
    s.set("timeout", int(1000 * max(1, min(5, secs - (time.time() - t0)))))
    return s.check(ra != rb) == z3.unsat


# ---------------------------------------------------------------- case distinction
def rat(t, memo):
    """numerator and denominator of a term without case distinctions"""
    k = t.get_id()
    if k in memo:
        return memo[k][0]
    one = z3.RealVal(1)
    if z3.is_add(t) or z3.is_sub(t):
        parts = [rat(c, memo) for c in t.children()]
        if z3.is_sub(t):
            parts = [parts[0]] + [(-n, d) for n, d in parts[1:]]
        groups = []
        for n, d in parts:
            for g in groups:
                if g[1].eq(d):
                    g[0] = g[0] + n
                    break
            else:
                groups.append([n, d])
        n, d = groups[0]
        for n2, d2 in groups[1:]:
            if d2.eq(one):
                n = n + n2 * d
            elif d.eq(one):
                n, d = n * d2 + n2, d2
            else:
                n, d = n * d2 + n2 * d, d * d2
        r = (n, d)
    elif z3.is_mul(t):
        n, d = one, one
        for c in t.children():
            cn, cd = rat(c, memo)
            n = cn if n.eq(one) else n * cn
            d = d if cd.eq(one) else (cd if d.eq(one) else d * cd)
        r = (n, d)
    elif z3.is_div(t):
        (n1, d1), (n2, d2) = rat(t.arg(0), memo), rat(t.arg(1), memo)
        r = (n1 if d2.eq(one) else n1 * d2, n2 if d1.eq(one) else d1 * n2)
    elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
        n, d = rat(t.arg(0), memo)
        r = (-n, d)
    elif z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 \
            and 0 < t.arg(1).numerator_as_long() <= 8:
        n, d = rat(t.arg(0), memo)
        k2 = t.arg(1).numerator_as_long()
        r = (z3.Product(*[n] * k2), z3.Product(*[d] * k2)) if k2 > 1 else (n, d)
    else:
        r = (z3.ToReal(t) if z3.is_int(t) else t, one)
    memo[k] = (r, t)
    return r


def dens(t, out, memo):
    """every divisor below t"""
    for x in nodes([t]):
        if z3.is_div(x) and not z3.is_rational_value(x.arg(1)):
            out.append(x.arg(1))


def rational_equal(a, b, solver):
    memo = {}
    if z3.is_int(a):
        a = z3.ToReal(a)
    if z3.is_int(b):
        b = z3.ToReal(b)
    n1, d1 = rat(a, memo)
    n2, d2 = rat(b, memo)
    e = z3.simplify(n1 * d2 - n2 * d1 if not d1.eq(d2) else n1 - n2, som=True)
    if not (z3.is_rational_value(e) and e.numerator_as_long() == 0):
        return False
    ds = []
    dens(a, ds, None)
    dens(b, ds, None)
    for d in ds:
        if not E.is_pos(d) and solver.check(d == 0) != z3.unsat:
            return False
    return True


def _find_cond(ts):
    """condition of an innermost if-then-else"""
    for t in nodes(ts):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return t.arg(0)
    return None


def _atom(c):
    while z3.is_not(c) or z3.is_and(c) or z3.is_or(c) or z3.is_implies(c) or z3.is_app_of(c, z3.Z3_OP_XOR) or \
            (z3.is_eq(c) and z3.is_bool(c.arg(0))):
        kids = [k for k in c.children() if not z3.is_true(k) and not z3.is_false(k)]
        if not kids:
            return None
        c = kids[0]
    return c


def split_equal(a, b, fs, secs=10, max_leaves=600):
    """(verdict, model): 'equal', 'differ' with a model, or 'open'"""
    a, b = E.arith(a), E.arith(b)
    a, b = z3.simplify(E.z(a)), z3.simplify(E.z(b))
    t_end = time.time() + secs
    s = z3.Solver()
    s.set("timeout", 1000)
    s.add(*fs)
    state = {"leaves": 0, "open": False}

    def check(*x):
        tq = time.time()
        r = s.check(*x)
        explore.STATS["queries"] += 1
        explore.STATS["solver_s"] += time.time() - tq
        return r

    def go(x, y):
        """None when equal everywhere here, else a model or 'open'"""
        if x.eq(y):
            return None
        if time.time() > t_end or state["leaves"] > max_leaves:
            return "open"
        c = _find_cond([x, y])
        if c is not None:
            c = _atom(c)
            if c is None:
                return "open"
        if c is None:
            state["leaves"] += 1
            try:
                if rational_equal(x, y, s):
                    return None
            except z3.Z3Exception:
                pass
            s.set("timeout", 2000)
            r = check(x != y)
            s.set("timeout", 1000)
            if r == z3.unsat:
                return None
            return s.model() if r == z3.sat else "open"
        worst = None
        for v in (True, False):
            lit = c if v else z3.Not(c)
            s.push()
            s.add(lit)
            if check() != z3.unsat:
                bv = z3.BoolVal(v)
                r = go(z3.simplify(z3.substitute(x, (c, bv))), z3.simplify(z3.substitute(y, (c, bv))))
                if r is not None:
                    if r != "open":
                        s.pop()
                        return r
                    worst = "open"
                    if time.time() > t_end:
                        s.pop()
                        return "open"
            s.pop()
        return worst
    r = go(a, b)
    if r is None:
        return "equal", None
    if isinstance(r, str):
        return "open", None
    return "differ", r
