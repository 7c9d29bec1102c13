"""Path exploration: the harness is re-run once per feasible decision prefix."""
import time

from .z3load import z3

_Z = z3.ExprRef
CUR = None  # the active path context

STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0}


class PathAbort(BaseException):
    """The current path is infeasible (or was cut by an assumption)."""


class Budget(Exception):
    pass


def _check(s, *extra):
    t = time.time()
    r = s.check(*extra)
    STATS["queries"] += 1
    STATS["solver_s"] += time.time() - t
    if r == z3.unknown:
        STATS["unknown"] += 1
    return r


class Path:
    def __init__(self, prefix, branch_timeout_ms=2000):
        self.prefix = prefix            # decisions to replay: list of values
        self.trace = []                 # (value, [alternatives still to try])
        self.pc = []
        self.axioms = []
        self._uf = {}
        self._seen = set()
        self._pows = {}
        self._may = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", branch_timeout_ms)
        self.names = set()
        self.counter = 0
        self.vars = {}                  # name -> z3 const, in creation order
        self.notes = []
        self.unsupported = []

    # --- assertions
    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathAbort()
            return
        self.pc.append(c)
        self.solver.add(c)
        self._may.clear()

    def axiom(self, c):
        self.axioms.append(c)
        self.solver.add(c)

    def assume(self, c):
        """restrict the inputs; abandons the path when contradictory"""
        if isinstance(c, bool):
            if not c:
                raise PathAbort()
            return
        self.add(c)
        if _check(self.solver) == z3.unsat:
            raise PathAbort()

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        r = _check(self.solver, c)
        return r != z3.unsat

    # --- decisions
    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append((v, []))
            self.add(c if v else z3.Not(c))
            return v
        t, f = self.feasible(c), self.feasible(z3.Not(c))
        if t and f:
            self.trace.append((True, [False]))
            self.add(c)
            return True
        if t:
            self.trace.append((True, []))
            self.add(c)
            return True
        if f:
            self.trace.append((False, []))
            self.add(z3.Not(c))
            return False
        raise PathAbort()

    def choose(self, e, limit=64):
        """concretise an integer term: one path per feasible value"""
        if not isinstance(e, _Z):
            return int(e)
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append((v, []))
            self.add(e == v)
            return v
        vals = []
        self.solver.push()
        try:
            while len(vals) <= limit:
                r = _check(self.solver)
                if r != z3.sat:
                    if r == z3.unknown:
                        raise Budget("cannot enumerate the values of an index term")
                    break
                v = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(e != v)
        finally:
            self.solver.pop()
        if len(vals) > limit:
            raise Budget("index term has too many values")
        if not vals:
            raise PathAbort()
        vals.sort()
        self.trace.append((vals[0], vals[1:]))
        self.add(e == vals[0])
        return vals[0]

    def may(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k not in self._may:
            self._may[k] = (self.feasible(c), c)
        return c if self._may[k][0] else False

    # --- fresh variables
    def fresh(self, name, sort):
        n, base = name, name
        while n in self.names:
            self.counter += 1
            n = f"{base}!{self.counter}"
        self.names.add(n)
        v = z3.Const(n, {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[sort])
        self.vars[n] = v
        return v

    # --- axioms of uninterpreted functions
    def note_uf(self, name, t, r):
        k = (name, t.get_id())
        if k in self._seen:
            return
        self._seen.add(k)
        A = self.axiom
        prev = self._uf.setdefault(name, [])
        if z3.is_rational_value(t):
            self._numeric(name, t, r)
        if name == "EXP":
            A(r > 0)
            A(r >= 1 + t)
            A(z3.Implies(t < 0, r < 1))
            A(z3.Implies(t == 0, r == 1))
        elif name == "LOG":
            A(z3.Implies(t > 0, r <= t - 1))
            A(z3.Implies(t > 1, r > 0))
            A(z3.Implies(t == 1, r == 0))
        elif name in ("TANH", "SIGMOID"):
            lo = -1 if name == "TANH" else 0
            A(z3.And(r > lo, r < 1))
            mid = 0 if name == "TANH" else z3.Q(1, 2)
            A(z3.And((t > 0) == (r > mid), (t < 0) == (r < mid)))
        elif name == "SQRT":
            A(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
        elif name == "ATANH":
            A(z3.And((t > 0) == (r > 0), (t < 0) == (r < 0)))
        if name in ("EXP", "LOG", "TANH", "SIGMOID", "SQRT", "ATANH") and len(prev) < 16:
            for (t2, r2) in prev:
                g = z3.BoolVal(True)
                if name in ("LOG", "SQRT"):
                    g = z3.And(t > 0, t2 > 0)
                elif name == "ATANH":
                    g = z3.And(t > -1, t < 1, t2 > -1, t2 < 1)
                A(z3.Implies(g, (t < t2) == (r < r2)))
        prev.append((t, r))

    def _numeric(self, name, t, r):
        """rational enclosure of a function value at a known point"""
        import math
        v = t.numerator_as_long() / t.denominator_as_long()
        f = {"EXP": math.exp, "LOG": math.log, "TANH": math.tanh, "SQRT": math.sqrt, "ERF": math.erf,
             "ATANH": math.atanh, "SIN": math.sin, "COS": math.cos, "LGAMMA": math.lgamma,
             "SIGMOID": lambda x: 1 / (1 + math.exp(-x))}.get(name)
        try:
            y = f(v)
        except Exception:
            return
        w = abs(y) * 1e-12 + 1e-300
        from fractions import Fraction
        lo, hi = Fraction(y - w), Fraction(y + w)
        self.axiom(z3.And(r >= z3.Q(lo.numerator, lo.denominator), r <= z3.Q(hi.numerator, hi.denominator)))

    def note_pow(self, a, b, r):
        k = ("POW", a.get_id(), b.get_id())
        if k in self._seen:
            return
        self._seen.add(k)
        A = self.axiom
        A(z3.Implies(a > 0, r > 0))
        A(z3.Implies(b == 0, r == 1))
        A(z3.Implies(b == 1, r == a))
        A(z3.Implies(b == 2, r == a * a))
        A(z3.Implies(a == 1, r == 1))
        A(z3.Implies(z3.And(a == 0, b > 0), r == 0))
        A(z3.Implies(z3.And(a >= 0, a <= 1, b >= 0), z3.And(r >= 0, r <= 1)))
        A(z3.Implies(z3.And(a >= 0, a <= 1, b >= 1), r <= a))
        A(z3.Implies(z3.And(a > 1, b > 0), r > 1))
        A(z3.Implies(z3.And(a >= 1, b <= 0), r <= 1))
        A(z3.Implies(z3.And(a >= 1, b >= 1), r >= a))
        if z3.is_rational_value(a):
            base = float(a.as_fraction())
            if base > 1:
                for k in range(5):  # convex in the exponent: above the tangent, below the chord
                    A(z3.Implies(z3.And(b >= k, b <= k + 1), r <= z3.RealVal(a.as_fraction() ** k) * (1 + (b - k) * (a - 1))))
            for b2, r2 in self._pows.setdefault(a.get_id(), []):
                if base > 1:
                    A((b < b2) == (r < r2))
            self._pows[a.get_id()].append((b, r))


def may(c):
    if CUR is None:
        return c if not isinstance(c, bool) else c
    return CUR.may(c)


def note_uf(name, t, r):
    if CUR is not None:
        CUR.note_uf(name, t, r)


def note_pow(a, b, r):
    if CUR is not None:
        CUR.note_pow(a, b, r)


def explore(run, max_paths=4096, deadline=None):
    """run(path) is called once per path; yields (path, result, exception)."""
    global CUR
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        p = Path(prefix)
        CUR = p
        res = exc = None
        aborted = False
        try:
            res = run(p)
        except PathAbort:
            aborted = True
        except Exception as e:  # the code under test raised on this path
            exc = e
        finally:
            CUR = None
        for i in range(len(p.trace) - 1, len(prefix) - 1, -1):
            for alt in p.trace[i][1]:
                stack.append([v for v, _ in p.trace[:i]] + [alt])
        n += 1
        if not aborted:
            CUR = p
            try:
                yield p, res, exc
            finally:
                CUR = None
        if n >= max_paths and stack:
            raise Budget(f"more than {max_paths} paths")
        if deadline is not None and time.time() > deadline and stack:
            raise Budget("time budget of the exploration is used up")
