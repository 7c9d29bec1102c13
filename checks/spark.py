"""A small stand-in for pyspark and petastorm (neither is installed): lazily evaluated tables over Python rows.

Columns are expression trees; the functions registered by the code under test run on the row values themselves, so
a symbolic value in a row flows through them.  A function feeding another function hands its value on unconverted (as
Spark's chained Python functions do); a value leaving the last one is converted to the declared type, and becomes null when
it does not have it.
"""
import re
import sys
import types
from symex.elem import Unsupported, is_bool, is_int, _Z
from symex.scal import S, ite, sand, snot, sor, unwrap, wrap

CURRENT = []  # the session in use


# ---- types
class Type:
    def __init__(self, *a, **k):
        self.a = a

    def __eq__(self, o):
        return type(self) is type(o) and self.a == o.a

    def __hash__(self):
        return hash(type(self).__name__)


def _ty(name):
    return type(name, (Type,), {})


FloatType, DoubleType, LongType, IntegerType, BooleanType, StringType = map(_ty, ["FloatType", "DoubleType", "LongType", "IntegerType", "BooleanType", "StringType"])


class ArrayType(Type):
    def __init__(self, elementType, containsNull=True):
        self.a = (elementType,)


class MapType(Type):
    def __init__(self, keyType, valueType, valueContainsNull=True):
        self.a = (keyType, valueType)


class StructField(Type):
    def __init__(self, name, dataType, nullable=True, metadata=None):
        self.a = (name, dataType)


class StructType(Type):
    def __init__(self, fields=None):
        self.a = tuple(fields or ())


NAMES = {"float": FloatType(), "double": DoubleType(), "bigint": LongType(), "long": LongType(), "int": IntegerType(), "integer": IntegerType(), "boolean": BooleanType(), "string": StringType()}


def typed(t):
    if isinstance(t, str):
        m = re.fullmatch(r"array<(.*)>", t.strip())
        return ArrayType(typed(m.group(1))) if m else NAMES[t.strip().lower()]
    return t() if isinstance(t, type) else t


def _sort(v):
    e = unwrap(v) if isinstance(v, S) else v
    if isinstance(v, S) and not isinstance(e, _Z):
        return "bool" if isinstance(e, bool) else "any"
    if is_bool(e):
        return "bool"
    if is_int(e):
        return "int"
    if isinstance(e, _Z) or isinstance(v, float):
        return "real"
    try:
        import numpy as np
        if isinstance(v, np.bool_):
            return "numpy"
        if isinstance(v, np.number):
            return "numpy"
    except ImportError:
        pass
    return "other"


def convert(v, t):
    """the value of a registered function in its declared type; null when it has another"""
    if v is None:
        return None
    s = _sort(v)
    if isinstance(t, (FloatType, DoubleType)):
        return v if s in ("real", "any") else None
    if isinstance(t, (LongType, IntegerType)):
        return v if s in ("int", "any") else None
    if isinstance(t, BooleanType):
        return v if s == "bool" else None
    if isinstance(t, StringType):
        return v if isinstance(v, str) else None
    if isinstance(t, ArrayType):
        return [convert(x, t.a[0]) for x in v] if isinstance(v, (list, tuple)) else None
    if isinstance(t, MapType):
        return {convert(k, t.a[0]): convert(x, t.a[1]) for k, x in v.items()} if isinstance(v, dict) else None
    if isinstance(t, StructType):
        if isinstance(v, dict):
            return {f.a[0]: convert(v.get(f.a[0]), f.a[1]) for f in t.a}
        assert len(v) == len(t.a), "a struct has as many values as fields"
        return {f.a[0]: convert(x, f.a[1]) for f, x in zip(t.a, v)}
    raise Unsupported(f"type {type(t).__name__}")


def cast(v, t):
    if v is None:
        return None
    s = _sort(v)
    if isinstance(t, ArrayType):
        return [cast(x, t.a[0]) for x in v] if isinstance(v, (list, tuple)) else None
    if isinstance(t, (FloatType, DoubleType)):
        if s == "bool":
            return ite(v, 1.0, 0.0) if isinstance(v, S) else float(v)
        return float(v) if isinstance(v, (int, str)) else v
    if isinstance(t, (LongType, IntegerType)):
        if s == "bool":
            return ite(v, 1, 0) if isinstance(v, S) else int(v)
        if isinstance(v, S):
            if s == "real":
                return ite(v >= 0, v.floor(), -((-v).floor()))
            return v
        return int(v)
    if isinstance(t, BooleanType):
        return v if s == "bool" else (v != 0)
    if isinstance(t, StringType):
        return str(v)
    raise Unsupported(f"cast to {type(t).__name__}")


# ---- rows
class Row(tuple):
    def __new__(cls, names, vals):
        r = tuple.__new__(cls, vals)
        r.__dict__["names"] = list(names)
        return r

    def __getitem__(self, k):
        return tuple.__getitem__(self, self.names.index(k) if isinstance(k, str) else k)

    def __contains__(self, k):
        return k in self.names

    def __getattr__(self, k):
        if k in self.__dict__.get("names", ()):
            return self[k]
        raise AttributeError(k)

    def asDict(self, recursive=False):
        return dict(zip(self.names, self))


# ---- columns
def _null2(f):
    return lambda a, b: None if a is None or b is None else f(a, b)


def _and(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return sand(a, b)
    return False if a is False or b is False else (None if a is None or b is None else bool(a and b))


def _or(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return sor(a, b)
    return True if a is True or b is True else (None if a is None or b is None else bool(a or b))


class Column:
    """kind and arguments; sub-columns among them"""

    def __init__(self, kind, *args, name=None):
        self.kind, self.args, self._name = kind, args, name

    def label(self):
        if self._name is not None:
            return self._name
        if self.kind == "col":
            return self.args[0].split(".")[-1]
        return f"{self.kind}({', '.join(a.label() for a in self.args if isinstance(a, Column))})"

    def bind(self, cols):
        """references to columns of a table replaced by what those are"""
        if self.kind == "col":
            n = self.args[0]
            if n in cols:
                return Column("as", cols[n], name=n)
            if "." in n:
                head, tail = n.split(".", 1)
                if head in cols:
                    e = cols[head]
                    for part in tail.split("."):
                        e = Column("field", e, part)
                    return Column("as", e, name=tail.split(".")[-1])
            raise KeyError(f"no column {n} among {sorted(cols)}")
        return Column(self.kind, *[a.bind(cols) if isinstance(a, Column) else a for a in self.args], name=self._name)

    def ev(self, row, chained=False):
        k, a = self.kind, self.args
        if k == "base":
            return row[a[0]]
        if k == "as":
            return a[0].ev(row, chained)
        if k == "lit":
            return a[0]
        if k == "udf":
            v = a[0](*[x.ev(row, True) for x in a[2:]])
            return v if chained else convert(v, a[1])
        if k == "cast":
            return cast(a[0].ev(row), a[1])
        if k == "field":
            v = a[0].ev(row)
            return None if v is None else (v.get(a[1]) if isinstance(v, dict) else v[a[1]])
        if k == "fn":
            return a[0](*[x.ev(row) for x in a[1:]])
        if k == "when":
            for c, v in a[0]:
                c = c.ev(row)
                if c is not None and bool(c):
                    return v.ev(row)
            return None if a[1] is None else a[1].ev(row)
        raise Unsupported(f"column {k}")

    # building
    def _op(self, f, o, rev=False):
        o = lit(o)
        return Column("fn", f, *((o, self) if rev else (self, o)))

    def alias(self, *names, **kw):
        return Column("as", self, name=names[0]) if len(names) == 1 else Column("as", self, name=names)

    name = alias

    def cast(self, t):
        return Column("cast", self, typed(t), name=self.label())

    astype = cast

    def getItem(self, k):
        return Column("field", self, k)

    getField = getItem
    __getitem__ = getItem

    def isNull(self):
        return Column("fn", lambda v: v is None, self)

    def isNotNull(self):
        return Column("fn", lambda v: v is not None, self)

    def between(self, lo, hi):
        return (self >= lo) & (self <= hi)

    def isin(self, *xs):
        xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple, set)) else xs
        return Column("fn", lambda v: None if v is None else sor(*[v == x for x in xs]) if isinstance(v, S) else v in xs, self)

    def otherwise(self, v):
        assert self.kind == "when"
        return Column("when", self.args[0], lit(v))

    def when(self, c, v):
        assert self.kind == "when"
        return Column("when", self.args[0] + [(c, lit(v))], None)

    def __bool__(self):
        raise ValueError("Cannot convert column into bool")

    __hash__ = object.__hash__


def _bindwhen():
    base = Column.bind

    def bind(self, cols):
        if self.kind == "when":
            return Column("when", [(c.bind(cols), v.bind(cols)) for c, v in self.args[0]], None if self.args[1] is None else self.args[1].bind(cols), name=self._name)
        return base(self, cols)
    Column.bind = bind


_bindwhen()


def _install_ops():
    import operator as o
    for n, f in [("add", o.add), ("sub", o.sub), ("mul", o.mul), ("truediv", o.truediv), ("mod", o.mod), ("pow", o.pow)]:
        setattr(Column, f"__{n}__", lambda self, other, f=f: self._op(_null2(f), other))
        setattr(Column, f"__r{n}__", lambda self, other, f=f: self._op(_null2(f), other, True))
    for n, f in [("lt", o.lt), ("le", o.le), ("gt", o.gt), ("ge", o.ge), ("eq", o.eq), ("ne", o.ne)]:
        setattr(Column, f"__{n}__", lambda self, other, f=f: self._op(_null2(f), other))
    setattr(Column, "__and__", lambda self, other: self._op(_and, other))
    setattr(Column, "__or__", lambda self, other: self._op(_or, other))
    setattr(Column, "__invert__", lambda self: Column("fn", lambda v: None if v is None else snot(v), self))
    setattr(Column, "__neg__", lambda self: Column("fn", lambda v: None if v is None else -v, self))


_install_ops()


def col(n):
    return Column("col", n)


def lit(v):
    return v if isinstance(v, Column) else Column("lit", v)


def tocol(v):
    return v if isinstance(v, Column) else col(v)


def udf(f=None, returnType=None):
    t = typed(returnType if returnType is not None else StringType())
    if f is None or isinstance(f, (Type, str)):
        return lambda g: udf(g, f if f is not None else returnType)

    def call(*cols):
        return Column("udf", f, t, *[tocol(c) for c in cols])
    call.func, call.returnType = f, t
    return call


def fn(f):
    return lambda *cols: Column("fn", f, *[tocol(c) for c in cols])


crc32 = fn(lambda v: None if v is None else CURRENT[-1].crc32(v))
size = fn(lambda v: -1 if v is None else len(v))
coalesce = fn(lambda *v: next((x for x in v if x is not None), None))
reverse = fn(lambda v: None if v is None else list(reversed(v)))
map_values = fn(lambda v: None if v is None else list(v.values()))
explode = lambda c: Column("explode", tocol(c))
map_keys = fn(lambda v: None if v is None else list(v))
collect_list = lambda c: Column("collect", tocol(c))
collect_set = lambda c: Column("collectset", tocol(c))
array_contains = lambda c, v: Column("fn", lambda xs: None if xs is None else v in xs, tocol(c))
element_at = lambda c, k: Column("fn", lambda v: None if v is None else (v.get(k) if isinstance(v, dict) else v[k - 1 if k > 0 else k]), tocol(c))
when = lambda c, v: Column("when", [(c, lit(v))], None)


def count(c="*"):
    return Column("count", lit(1) if c == "*" else tocol(c))


def expr(s):
    return Parser(s).whole()


# ---- tables
def find(e, kind):
    if isinstance(e, Column):
        if e.kind == kind:
            return e
        for a in e.args:
            r = find(a, kind)
            if r is not None:
                return r
    return None


class Frame:
    def __init__(self, session, rows, cols=None):
        self.s, self.rows = session, rows
        self.cols = cols if cols is not None else {n: Column("base", n) for n in (rows[0] if rows else {})}

    @property
    def columns(self):
        return list(self.cols)

    def _with(self, cols, rows=None):
        return Frame(self.s, self.rows if rows is None else rows, cols)

    def __getitem__(self, n):
        return col(n)

    def withColumn(self, n, c):
        cols = dict(self.cols)
        cols[n] = c.bind(self.cols)
        return self._with(cols)

    def withColumnRenamed(self, a, b):
        return self._with({(b if n == a else n): c for n, c in self.cols.items()})

    def drop(self, *names):
        names = [n.args[0] if isinstance(n, Column) else n for n in names]
        return self._with({n: c for n, c in self.cols.items() if n not in names})

    def filter(self, c):
        c = (expr(c) if isinstance(c, str) else c).bind(self.cols)
        keep = []
        for r in self.rows:
            v = c.ev(r)
            if v is not None and bool(v):
                keep.append(r)
        return self._with(dict(self.cols), keep)

    where = filter

    def select(self, *cs):
        if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
            cs = cs[0]
        cols, boom = {}, None
        for c in cs:
            if isinstance(c, str):
                if c == "*":
                    cols.update(self.cols)
                    continue
                c = col(c)
            b = c.bind(self.cols)
            if find(b, "explode") is not None:
                boom = (c.label() if c.kind == "as" else None, b)
                cols[("explode",)] = None
            else:
                assert c.label() not in cols, "two columns of one name"
                cols[c.label()] = b
        if boom is None:
            return self._with(cols)
        name, b = boom
        src = find(b, "explode").args[0]
        out = []
        for r in self.rows:
            v = src.ev(r)
            rest = {n: c.ev(r) for n, c in cols.items() if c is not None}
            if isinstance(v, dict):
                ns = name if isinstance(name, tuple) else ("key", "value")
                out += [dict(rest, **{ns[0]: k, ns[1]: x}) for k, x in v.items()]
            else:
                out += [dict(rest, **{name or "col": x}) for x in (v or [])]
        if out:
            return Frame(self.s, out)
        return Frame(self.s, [], {n: Column("base", n) for n in ((name,) if isinstance(name, str) else name or ("col",))})

    def evaluate(self):
        return [{n: c.ev(r) for n, c in self.cols.items()} for r in self.rows]

    def distinct(self):
        seen = []
        for r in self.evaluate():
            if r not in seen:
                seen.append(r)
        return self._with({n: Column("base", n) for n in self.cols}, seen)

    dropDuplicates = distinct

    def collect(self):
        return [Row(list(r), list(r.values())) for r in self.evaluate()]

    def toLocalIterator(self):
        return iter(self.collect())

    def head(self, n=None):
        rs = self.collect()
        return (rs[0] if rs else None) if n is None else rs[:n]

    first = head
    take = head

    def count(self):
        return len(self.rows)

    def limit(self, n):
        return self._with(dict(self.cols), self.rows[:n])

    def cache(self, *a):
        return self

    persist = unpersist = repartition = coalesce = cache

    def show(self, *a, **k):
        pass

    printSchema = show

    def union(self, o):
        return Frame(self.s, self.evaluate() + [dict(zip(self.cols, r.values())) for r in o.evaluate()])

    unionAll = union

    def toPandas(self):
        import pandas
        return pandas.DataFrame(self.evaluate(), columns=list(self.cols))

    @property
    def rdd(self):
        return Rdd(self.collect())

    def createOrReplaceTempView(self, n):
        self.s.views[n] = self

    registerTempTable = createTempView = createOrReplaceTempView

    def groupBy(self, *names):
        assert len(names) == 1
        return Groups(self, names[0] if isinstance(names[0], str) else names[0].label())

    groupby = groupBy

    def sampleBy(self, c, fractions, seed=None):
        """each row stays with the chance of its group; the rolls are the session's"""
        self.s.seeds.append(seed)
        keep, ev = [], self.evaluate()
        for r, e in zip(self.rows, ev):
            f = fractions.get(e[c if isinstance(c, str) else c.label()], 0.0)
            if bool(self.s.roll(e) < f):
                keep.append(r)
        return self._with(dict(self.cols), keep)

    @property
    def write(self):
        return Writer(self)


class Rdd:
    def __init__(self, xs):
        self.xs = list(xs)

    def flatMap(self, f):
        return Rdd([y for x in self.xs for y in f(x)])

    def map(self, f):
        return Rdd([f(x) for x in self.xs])

    def filter(self, f):
        return Rdd([x for x in self.xs if f(x)])

    def distinct(self):
        return Rdd(dict.fromkeys(self.xs))

    def collect(self):
        return list(self.xs)

    def count(self):
        return len(self.xs)


class Groups:
    def __init__(self, f, key):
        self.f, self.key = f, key

    def groups(self):
        g = {}
        for r in self.f.evaluate():
            g.setdefault(r[self.key], []).append(r)
        return g

    def count(self):
        return Frame(self.f.s, [{self.key: k, "count": len(v)} for k, v in self.groups().items()], {n: Column("base", n) for n in (self.key, "count")})

    def agg(self, *cs):
        out = []
        names = [self.key] + [c.label() for c in cs]
        for k, rows in self.groups().items():
            o = {self.key: k}
            for c in cs:
                cc = next((x for x in map(lambda k: find(c, k), ("collect", "collectset", "count")) if x is not None), None)
                if cc is None:
                    raise Unsupported("aggregate")
                vals = [cc.args[0].bind({n: Column("base", n) for n in rows[0]}).ev(r) for r in rows]
                vals = [v for v in vals if v is not None]
                o[c.label()] = len(vals) if cc.kind == "count" else (list(dict.fromkeys(vals)) if cc.kind == "collectset" else vals)
            out.append(o)
        return Frame(self.f.s, out, {n: Column("base", n) for n in names})


class Writer:
    def __init__(self, f):
        self.f, self.m, self.fmt = f, "error", "parquet"

    def mode(self, m):
        self.m = m
        return self

    def format(self, f):
        self.fmt = f
        return self

    def option(self, *a):
        return self

    def saveAsTable(self, n, format=None, mode=None, **k):
        self.f.s.save(n, self.f.evaluate(), mode or self.m, format or self.fmt)


# ---- SQL
TOKEN = re.compile(r"\s*(?:(\d+\.\d*(?:[eE][-+]?\d+)?|\d*\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?)|([A-Za-z_][\w]*)|('(?:[^']*)')|(->|<=|>=|<>|!=|==|[-+*/%(),.<>=\[\]]))")


class Parser:
    def __init__(self, s):
        self.t, i = [], 0
        s = s.strip()
        while i < len(s):
            m = TOKEN.match(s, i)
            if not m:
                raise Unsupported(f"SQL {s[i:]!r}")
            self.t.append(next((k, g) for k, g in zip(("num", "id", "str", "op"), m.groups()) if g is not None))
            i = m.end()
        self.i, self.scope = 0, []

    def peek(self, *vals):
        return self.i < len(self.t) and self.t[self.i][0] != "str" and self.t[self.i][1].upper() in vals

    def take(self, *vals):
        if vals and not self.peek(*vals):
            raise Unsupported(f"SQL: expected {vals} in {self.t[self.i:]}")
        self.i += 1
        return self.t[self.i - 1]

    def whole(self):
        e = self.expr()
        if self.i != len(self.t):
            raise Unsupported(f"SQL: {self.t[self.i:]}")
        return e

    def select(self):
        self.take("SELECT")
        items = []
        while True:
            if self.peek("*"):
                self.take()
                items.append("*")
            else:
                e = self.expr()
                if self.peek("AS"):
                    self.take()
                    e = e.alias(self.take()[1])
                elif not self.peek(",", "FROM"):
                    e = e.alias(self.take()[1])
                items.append(e)
            if self.peek(","):
                self.take()
                continue
            break
        self.take("FROM")
        return items, ".".join(t[1] for t in self.t[self.i:])

    def expr(self):
        a = self.conj()
        while self.peek("OR"):
            self.take()
            a = a | self.conj()
        return a

    def conj(self):
        a = self.comp()
        while self.peek("AND"):
            self.take()
            a = a & self.comp()
        return a

    def comp(self):
        a = self.sum()
        while self.peek("<", ">", "<=", ">=", "=", "==", "!=", "<>"):
            o = self.take()[1]
            b = self.sum()
            a = {"<": a.__lt__, ">": a.__gt__, "<=": a.__le__, ">=": a.__ge__, "=": a.__eq__, "==": a.__eq__, "!=": a.__ne__, "<>": a.__ne__}[o](b)
        return a

    def sum(self):
        a = self.prod()
        while self.peek("+", "-"):
            a = a + self.prod() if self.take()[1] == "+" else a - self.prod()
        return a

    def prod(self):
        a = self.unary()
        while self.peek("*", "/", "%"):
            o = self.take()[1]
            b = self.unary()
            a = a * b if o == "*" else (a / b if o == "/" else a % b)
        return a

    def unary(self):
        if self.peek("-"):
            self.take()
            return -self.unary()
        if self.peek("+"):
            self.take()
            return self.unary()
        return self.post()

    def post(self):
        a = self.atom()
        while self.peek("[", "."):
            if self.take()[1] == "[":
                k = self.expr()
                self.take("]")
                a = Column("fn", lambda v, i: None if v is None else (v.get(i) if isinstance(v, dict) else v[i] if i < len(v) else None), a, k)
            else:
                a = Column("field", a, self.take()[1])
        return a

    def lam(self, names):
        self.take("->")
        self.scope.append(names)
        body = self.expr()
        self.scope.pop()
        return names, body

    def arg(self):
        """an expression or a lambda"""
        j = self.i
        if self.t[j][0] == "id" and j + 1 < len(self.t) and self.t[j + 1][1] == "->":
            self.i += 1
            return self.lam([self.t[j][1]])
        if self.t[j] == ("op", "("):
            k, names = j + 1, []
            while k < len(self.t) and (self.t[k][0] == "id" or self.t[k][1] == ","):
                if self.t[k][0] == "id":
                    names.append(self.t[k][1])
                k += 1
            if k + 1 < len(self.t) and self.t[k][1] == ")" and self.t[k + 1][1] == "->":
                self.i = k + 1
                return self.lam(names)
        return self.expr()

    def atom(self):
        k, v = self.take()
        if k == "num":
            return lit(float(v) if re.search(r"[.eE]", v) else int(v))
        if k == "str":
            return lit(v[1:-1])
        if v == "(":
            e = self.expr()
            self.take(")")
            return e
        if k != "id":
            raise Unsupported(f"SQL: {v}")
        if v.upper() == "NULL":
            return lit(None)
        if v.upper() in ("TRUE", "FALSE"):
            return lit(v.upper() == "TRUE")
        if not self.peek("("):
            if any(v in s for s in self.scope):
                return Column("var", v)
            return col(v)
        self.take("(")
        f = v.upper()
        if f == "CAST":
            e = self.expr()
            self.take("AS")
            t = self.take()[1]
            self.take(")")
            return Column("cast", e, typed(t))
        args = []
        while not self.peek(")"):
            args.append(self.arg())
            if self.peek(","):
                self.take()
        self.take(")")
        return self.call(f, args)

    def call(self, f, args):
        if f in ("FLOAT", "DOUBLE", "BIGINT", "INT", "BOOLEAN", "STRING"):
            return Column("cast", args[0], typed(f.lower()))
        if f in ("AGGREGATE", "REDUCE"):
            return Column("aggregate", args[0], args[1], *args[2:])
        if f in ("TRANSFORM", "FILTER", "ZIP_WITH"):
            return Column(f.lower(), *args)
        if f == "COALESCE":
            return Column("fn", lambda *v: next((x for x in v if x is not None), None), *args)
        if f == "REVERSE":
            return Column("fn", lambda v: None if v is None else list(reversed(v)), *args)
        if f in ("POWER", "POW"):
            return Column("fn", _null2(lambda a, b: a ** b), *args)
        if f in ("SIZE", "CARDINALITY"):
            return Column("fn", lambda v: -1 if v is None else len(v), *args)
        if f == "SLICE":
            return Column("fn", lambda v, s, n: None if v is None else v[s - 1:s - 1 + n], *args)
        if f == "SEQUENCE":
            return Column("fn", lambda a, b: list(range(a, b + 1)), *args)
        if f == "ABS":
            return Column("fn", lambda v: None if v is None else ite(v >= 0, v, -v) if isinstance(v, S) else abs(v), *args)
        if f == "IF":
            return Column("when", [(args[0], args[1])], args[2])
        raise Unsupported(f"SQL function {f}")


def _lambdas():
    base_bind, base_ev = Column.bind, Column.ev

    def strip(e, names):
        return e

    def bind(self, cols):
        if self.kind in ("aggregate", "transform", "filter", "zip_with"):
            return Column(self.kind, *[(a[0], a[1].bind(cols)) if isinstance(a, tuple) else a.bind(cols) for a in self.args], name=self._name)
        if self.kind == "var":
            return self
        return base_bind(self, cols)

    def ev(self, row, chained=False):
        k, a = self.kind, self.args
        if k == "var":
            return row[("var", a[0])]

        def app(lam, *vals):
            return lam[1].ev({**row, **{("var", n): v for n, v in zip(lam[0], vals)}})
        if k == "aggregate":
            xs, acc = a[0].ev(row), a[1].ev(row)
            if xs is None:
                return None
            for x in xs:
                acc = app(a[2], acc, x)
            return app(a[3], acc) if len(a) > 3 else acc
        if k == "transform":
            xs = a[0].ev(row)
            return None if xs is None else [app(a[1], *((x, i) if len(a[1][0]) == 2 else (x,))) for i, x in enumerate(xs)]
        if k == "filter":
            return [x for x in a[0].ev(row) if bool(app(a[1], x))]
        if k == "zip_with":
            return [app(a[2], x, y) for x, y in zip(a[0].ev(row), a[1].ev(row))]
        return base_ev(self, row, chained)
    Column.bind, Column.ev = bind, ev


_lambdas()


# ---- sessions
class Context:
    def setLogLevel(self, l):
        pass


class Session:
    def __init__(self, tables=None, crc=None, roll=None, taken=None, scheme="file"):
        self.views = {}
        for n, rows in (tables or {}).items():
            self.views[n] = Frame(self, rows)
        self.crc32, self.roll = crc, roll
        self.seeds, self.saved, self.asked, self.config = [], {}, [], {}
        self.taken = taken or (lambda n: False)
        self.scheme, self.race = scheme, False
        self.sparkContext = Context()
        self.catalog = types.SimpleNamespace(_jcatalog=types.SimpleNamespace(tableExists=self.exists), tableExists=self.exists, dropTempView=lambda n: self.views.pop(n, None))
        self.read = types.SimpleNamespace(parquet=self.parquet, table=self.table)

    def __enter__(self):
        CURRENT.append(self)
        return self

    def __exit__(self, *a):
        CURRENT.pop()

    def exists(self, n):
        r = bool(self.taken(n)) or n in self.saved
        self.asked.append((n, r))
        return r

    def save(self, n, rows, mode, fmt):
        used = n in self.saved or (n, True) in self.asked or self.race
        if used and mode in ("error", "errorifexists", "default"):
            raise RuntimeError(f"table {n} exists")
        if used and mode == "ignore":
            return
        old = self.saved.get(n, ([], None))[0] if mode == "append" else []
        self.saved[n] = (old + rows, fmt)

    def url(self, n):
        return f"{self.scheme}:/warehouse/{n}"

    def table(self, n):
        if n in self.views:
            f = self.views[n]
            return Frame(f.s, f.rows, dict(f.cols))
        return Frame(self, self.saved[n][0])

    def parquet(self, url):
        for n, (rows, fmt) in self.saved.items():
            if url.replace("://", ":") == self.url(n):
                return Frame(self, rows)
        raise FileNotFoundError(url)

    def sql(self, q):
        q = q.strip().rstrip(";")
        if q.upper().startswith("DESCRIBE FORMATTED"):
            n = q.split()[-1]
            assert n in self.saved, f"no table {n}"
            return Frame(self, [{"col_name": k, "data_type": v, "comment": ""} for k, v in
                                [("reward", "float"), ("", ""), ("# Detailed Table Information", ""), ("Table", n), ("Type", "MANAGED"), ("Location", self.url(n)), ("Provider", "parquet")]])
        items, name = Parser(q).select()
        f = self.table(name)
        return f.select(*items)


class Builder:
    def enableHiveSupport(self):
        return self

    def config(self, k=None, v=None, **kw):
        CURRENT[-1].config[k] = v
        return self

    def appName(self, n):
        return self

    master = appName

    def getOrCreate(self):
        return CURRENT[-1]


class SparkSession:
    builder = Builder()


# ---- petastorm
class Reader:
    """records of a data set by its url; ROWS[url] is a list of dictionaries"""
    ROWS, LOG = {}, []

    def __init__(self, url, num_epochs, pool):
        self.url, self.num_epochs, self.pool = url, num_epochs, pool


def make_batch_reader(url, num_epochs=1, reader_pool_type="thread", **k):
    return Reader(url, num_epochs, reader_pool_type)


class DataLoader:
    def __init__(self, reader, batch_size=1, collate_fn=None, **k):
        self.reader, self.batch_size, self.collate_fn = reader, batch_size, collate_fn
        self.closed = False
        Reader.LOG.append(self)

    def __iter__(self):
        rows = Reader.ROWS[self.reader.url] * self.reader.num_epochs
        for i in range(0, len(rows), self.batch_size):
            yield self.collate_fn(rows[i:i + self.batch_size])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


def decimal_friendly_collate(rows):
    return [r for r in rows]


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    me = sys.modules[__name__]
    if "pyspark" in sys.modules and not getattr(sys.modules["pyspark"], "stand_in", False):
        return
    if "pyspark" in sys.modules:
        return
    T = ["FloatType", "DoubleType", "LongType", "IntegerType", "BooleanType", "StringType", "ArrayType", "MapType", "StructField", "StructType"]
    F = ["col", "lit", "udf", "crc32", "size", "coalesce", "reverse", "map_values", "map_keys", "explode", "collect_list", "collect_set", "array_contains", "element_at", "when", "count", "expr"]
    ty = mod("pyspark.sql.types", **{n: getattr(me, n) for n in T})
    fu = mod("pyspark.sql.functions", **{n: getattr(me, n) for n in F})
    fu.column = col
    sql = mod("pyspark.sql", SparkSession=SparkSession, DataFrame=Frame, Column=Column, Row=Row, types=ty, functions=fu, __path__=[])
    mod("pyspark", sql=sql, stand_in=True, __path__=[])
    pt = mod("petastorm.pytorch", DataLoader=DataLoader, decimal_friendly_collate=decimal_friendly_collate)
    mod("petastorm", make_batch_reader=make_batch_reader, pytorch=pt, __path__=[])


install()
