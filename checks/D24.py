"""Containers of off-policy evaluation: distributions over actions, item lists, running averages, clamping."""
import numpy as np
from reagent.ope import utils as ope_utils
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace, Items, TypeWrapper
from reagent.ope.estimators.slate_estimators import SlateItem, SlateItemProbabilities, SlateSlots, SlateSlot
from checks.common import *
from checks.D19 import Float
from checks.D23 import Math

suite = Suite("D24", ["values lie in [-8, 8] and at least one is 1/16 or more; values that are compared are equal or 1/16 apart"])
KEYS = [Action(7), Action(3), Action((1, 2)), Action(0)]


def spaced(env, v):
    for i in range(len(v)):
        for j in range(i):
            env.assume(sor(v[i] - v[j] >= 0.0625, v[j] - v[i] >= 0.0625))


def numbers(env, name, n):
    v = [env.num(f"{name}{i}", -8, 8) for i in range(n)]
    env.assume(sor(*[x >= 0.0625 for x in v]))
    return v


def given(env, kind, v, keys):
    if kind == "list":
        return list(v)
    if kind == "array":
        return np.array(v, dtype=object if env.sym else float)
    if kind == "tensor":
        return env.mk([unwrap(x) for x in v])
    return dict(zip(keys, v))


def agrees(env, d, v, keys, label, mapped=False):
    """every view of the distribution d speaks of the values v"""
    pos = [smax(x, 0) for x in v]
    tot = ssum(pos)
    env.eq([d[k] for k in keys], v, label + ": value of a key")
    env.close([d.probability(k) * tot for k in keys], pos, label + ": probability", 1e-4)
    env.eq(d.values, v, label + ": values")
    env.check(len(d) == len(v) and d.is_sequence == (not mapped) and list(d.keys) == list(keys), label + ": keys")
    pairs = list(d)
    env.check([k for k, _ in pairs] == list(keys), label + ": iteration")
    env.eq([x for _, x in pairs], v, label + ": iteration")
    env.check([d.index_of(k) for k in keys] == list(range(len(v))), label + ": position of a key")
    ks, vs = d.sort()
    order = [keys.index(k) for k in ks]
    env.check(sorted(order) == list(range(len(v))), label + ": sorted keys")
    env.eq(vs, [v[i] for i in order], label + ": sorted values")
    for i, j in zip(order, order[1:]):
        env.le(v[j], v[i], label + ": descending order")
    env.check(d.greedy(2) == list(ks[:2]), label + ": greedy picks")


def history_case(env, n, kind, how):
    """built, read, changed, read again"""
    v = numbers(env, "v", n)
    spaced(env, v)
    mapped = kind == "mapping"
    keys = KEYS[:n] if mapped else [Action(i) for i in range(n)]
    d = ActionDistribution(given(env, kind, v, keys))
    if bool(env.flag("read first")):
        agrees(env, d, v, keys, "as built", mapped)
    w = list(v)
    if how == "set":
        k = env.pick("key", list(range(n)))
        w[k] = env.num("new", 0.0625, 8)
        spaced(env, w)
        d[keys[k]] = w[k]
        agrees(env, d, w, keys, "after an assignment", mapped)
        return
    if how == "replace some":
        k = env.pick("key", list(range(n)))
        w[k] = env.num("new", 0.0625, 8)
        src = {keys[k]: w[k]}
    else:
        w = numbers(env, "w", n)
        src = given(env, how, w, keys)
    spaced(env, w)
    e = d.replace(src)
    agrees(env, e, w, keys, "replaced", mapped)
    agrees(env, d, v, keys, "original", mapped)
    env.check(type(e) is type(d), "same kind of distribution")


for kd, hw in (("list", "set"), ("mapping", "set"), ("tensor", "list"), ("array", "tensor"), ("mapping", "replace some"), ("list", "replace some"), ("mapping", "array"), ("list", "mapping")):
    suite.case(bounds="2 values, read or not before the change", n=2, kind=kd, how=hw)(history_case)
for kd, hw in (("list", "list"), ("tensor", "replace some"), ("mapping", "mapping")):
    suite.case(bounds="3 values, read or not before the change", n=3, kind=kd, how=hw)(history_case)


def slate_cache_case(env, n):
    """derived slate expectations follow the values too"""
    v, w = numbers(env, "v", n), numbers(env, "w", n)
    for x in v + w:
        env.assume(x >= 0.125)
    d = SlateItemProbabilities(list(v))
    slots = SlateSlots(1)
    if bool(env.flag("read first")):
        d.slot_item_expectations(slots)
    e = d.replace(list(w))
    for dist, x, label in ((e, w, "replaced"), (d, v, "original")):
        t = env.L(dist.slot_item_expectations(slots).values_tensor())[0]
        env.close([p * ssum(x) for p in t], x, label + ": chance of each item in the first slot", 1e-3)


suite.case(bounds="3 items, 1 slot", n=3)(slate_cache_case)


def sample_case(env, n, kind):
    """draws follow the normalised distribution and come back as keys"""
    v = numbers(env, "v", n)
    keys = KEYS[:n] if kind == "mapping" else [Action(i) for i in range(n)]
    d = ActionDistribution(given(env, kind, v, keys))
    pick = env.pick("drawn", [(i, j) for i in range(n) for j in range(n) if i != j])
    seen = []
    def multinomial(p, k, *a, **kw):
        seen.append((p, k, a, kw))
        return torch.tensor(pick[:k])
    with env.patch(torch, "multinomial", multinomial):
        got = d.sample(2)
    env.check(got == [keys[i] for i in pick], "drawn keys")
    p, k, a, kw = seen[0]
    pos = [smax(x, 0) for x in v]
    env.check(len(seen) == 1 and k == 2 and not a and not kw.get("replacement", False), "one draw without replacement")
    env.close([x * ssum(pos) for x in env.L(p)], pos, "weights of the draw", 1e-4)


for kd in ("list", "mapping"):
    suite.case(bounds="3 values, 2 draws", n=3, kind=kd)(sample_case)


def fill_case(env, n, m, named, source):
    """a list of items turns any description of values into one value for each item, zero where nothing is said"""
    items = KEYS[:n] if named else n
    sp = ActionSpace(items)
    v = [env.num(f"v{i}", -8, 8) for i in range(m)]
    its = list(sp)
    if source == "mapping":
        who = [its[(i + 1) % n] for i in range(m)]
        src = dict(zip(who, v))
        want = [src.get(k, 0) for k in its]
    else:
        src = given(env, source, v, None)
        want = [v[i] if i < m else 0 for i in range(n)]
    d = sp.distribution(src)
    env.check(len(sp) == n and its == (KEYS[:n] if named else [Action(i) for i in range(n)]) and sp.is_sequence == (not named), "items")
    env.eq([d[k] for k in its], want, "value of each item")
    env.check([sp.index_of(k) for k in its] == list(range(n)), "position of an item")
    env.check(env.raises(lambda: sp.index_of(Action(99)), ValueError) and env.raises(lambda: d.index_of(Action(99)), ValueError), "unknown items are rejected")


for nm in (False, True):
    for m, src in ((2, "list"), (3, "list"), (2, "mapping"), (3, "array"), (4, "list"), (3, "tensor")):
        suite.case(bounds=f"3 items, {m} values", n=3, m=m, named=nm, source=src)(fill_case)


def average_case(env, n):
    """mean of the finite numbers added"""
    xs = [env.pick(f"x{i}", ["number", "nan", "inf", "-inf"]) for i in range(n)]
    nums = [env.num(f"n{i}", -8, 8) for i in range(n)]
    add = [v if x == "number" else float(x) for x, v in zip(xs, nums)]
    start = bool(env.flag("starting value"))
    s = env.num("start", -8, 8)
    with env.patch(ope_utils, "math", Math()), env.patch(ope_utils, "float", Float):
        r = ope_utils.RunningAverage(s) if start else ope_utils.RunningAverage()
        for v in add:
            env.check(r.add(v) is r, "chained")
        good = [v for x, v in zip(xs, nums) if x == "number"] + ([s] if start else [])
        env.check(r.count == len(good), "count of the finite numbers")
        if good:
            env.close([r.average], [ssum(good) / len(good)], "average", 1e-4)
            env.close([r.total], [ssum(good)], "total", 1e-4)
        else:
            env.check(r.average != r.average, "no number, no average")


suite.case(bounds="3 additions, any of them not a number", n=3)(average_case)


def clamper_case(env, kind):
    lo, hi = env.num("lo", -8, 8), env.num("hi", -8, 8)
    env.assume(sor(lo >= hi + 0.0625, hi >= lo + 0.0625, lo == hi))
    xs = [env.num(f"x{i}", -16, 16) for i in range(3)]
    if bool(lo >= hi):
        env.check(env.raises(lambda: ope_utils.Clamper(lo, hi), ValueError), "an empty range is rejected")
        return
    c = ope_utils.Clamper(lo, hi)
    want = [clamp(x, lo, hi) for x in xs]
    with env.patch(ope_utils, "float", Float):
        if kind == "number":
            got = [c(x) for x in xs]
        else:
            got = c(given(env, kind, xs, None))
        free = ope_utils.Clamper()
        env.eq([free(x) for x in xs], xs, "no limits by default")
    env.eq(list(got) if isinstance(got, np.ndarray) else got, want, "clamped")


for kd in ("number", "list", "tensor"):
    suite.case(bounds="3 numbers", kind=kd)(clamper_case)


def wrapper_case(env, kind):
    """equality, order and hashing of wrapped values follow the values"""
    pairs = {"int": [2, 5, 2], "tuple": [(1, 2), (2, 1), (1, 2)], "tensor": [torch.tensor([1.0, 2.0]), torch.tensor([2.0, 3.0]), torch.tensor([1.0, 2.0])],
             "array": [np.array([1, 2]), np.array([3, 4]), np.array([1, 2])]}[kind]
    i, j = env.pick("first", [0, 1, 2]), env.pick("second", [0, 1, 2])
    a, b = TypeWrapper(pairs[i]), TypeWrapper(pairs[j])
    same = (i == j) or {i, j} == {0, 2}
    env.check((a == b) == same and (a != b) == (not same), "equal values are equal")
    env.check(not same or hash(a) == hash(b), "equal values hash alike")
    if not same:
        less = {0: 0, 2: 0, 1: 1}
        env.check(bool(a < b) == (less[i] < less[j]), "order of the values")
    env.check((a == pairs[j]) is False if kind in ("int", "tuple") else True, "a bare value is not a wrapped one")
    if kind == "int":
        env.check(int(a) == pairs[i] and [10, 11, 12, 13, 14, 15][a] == 10 + pairs[i], "an integer can index")


for kd in ("int", "tuple", "tensor", "array"):
    suite.case(bounds="three values, each pair", kind=kd)(wrapper_case)


def cache_case(env, size, n):
    """an LRU cache keeps the entries used last"""
    c = ope_utils.LRUCache(size)
    ref = []
    for t in range(n):
        k = env.pick(f"key{t}", [0, 1, 2])
        if k in c and bool(env.flag(f"read{t}")):
            env.check(c[k][0] == k and c[k] == dict(ref)[k], "cached entry")
            e = (k, dict(ref)[k])
        else:
            c[k] = (k, t)
            e = (k, (k, t))
            if k in dict(ref):
                # rewriting an entry leaves its place unchanged
                ref = [(x, e[1]) if x == k else (x, y) for x, y in ref]
                continue
        ref = [x for x in ref if x[0] != k] + [e]
        ref = ref[-size:]
        env.check(dict(c) == dict(ref), "entries kept")


suite.case(bounds="capacity 2, 4 operations on 3 keys", size=2, n=4)(cache_case)


def one_hot_case(env, n, k):
    a = [env.pick(f"a{i}", list(range(k))) for i in range(n)]
    got = ope_utils.convert_to_one_hots(torch.tensor(a), k)
    env.check(got.tolist() == [[int(x == j) for j in range(k)] for x in a], "one-hot rows")


suite.case(bounds="2 rows, 3 classes", n=2, k=3)(one_hot_case)
