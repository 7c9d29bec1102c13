"""Slate off-policy evaluation: item and slot distributions, slate metrics, slate estimators."""
import contextlib
import itertools
import types
import numpy as np
from reagent.ope.estimators import slate_estimators as sl
from reagent.ope.estimators.types import PredictResults
from reagent.ope.utils import Clamper
from checks.common import *
from checks.D21 import dot, mean
from checks.D19 import Float
from checks.D23 import Math, ope_env
from checks.D25 import Model

suite = Suite("D27", ["item scores are 0 where stated and lie in [1/8, 4] otherwise; rewards lie in [-8, 8]", "logged and target probabilities of slates are 0 or at least 1/8 and equal or 1/16 apart",
                      "the reward model is arbitrary; the pseudo-inverse of the rank-one moment matrix is its closed form"])
I = sl.SlateItem


@contextlib.contextmanager
def slate_env(env):
    with ope_env(env), env.patch(sl, "math", Math()), env.patch(sl, "Probability", Float), env.patch(sl, "float", Float), env.patch(sl.DCGSlateMetric, "_weights", None):
        yield


def scores(env, name, k, zero=()):
    return [0.0 if j in zero else env.num(f"{name}{j}", 0.125, 4) for j in range(k)]


def named(keys, xs):
    return dict(zip(keys, xs))


def containers(k, keyed, n=None):
    """items and slots, listed or named"""
    items = [I(10 + 3 * j) for j in range(k)] if keyed else [I(j) for j in range(k)]
    slots = [sl.SlateSlot(100 - j) for j in range(n)] if keyed else None
    return items, (sl.SlateSlots(slots) if keyed else sl.SlateSlots(n))


def plackett(w, pick):
    """drawing without replacement in proportion to the scores"""
    p, left = 1, ssum(w)
    for j in pick:
        p = p * w[j] / left
        left = left - w[j]
    return p


def orders(k, n):
    return list(itertools.permutations(range(k), n))


def item_dist(env, name, k, items, keyed, zero=(), greedy=False):
    w = scores(env, name, k, zero)
    return w, sl.SlateItemProbabilities(named(items, w) if keyed else list(w), greedy)


def apart(env, w):
    for a, b in itertools.combinations(w, 2):
        env.assume(sor(a - b >= 0.0625, b - a >= 0.0625))


def ranked(env, w):
    """positions by falling score (scores are apart), found by forking"""
    k = len(w)
    perm = env.pick("order", orders(k, k))
    for a, b in zip(perm, perm[1:]):
        env.assume(w[a] >= w[b] + 0.0625)
    return perm


def probability_case(env, k, n, keyed, zero=()):
    """slate probability, the space of slates, and the share of each item at each slot agree with drawing without replacement"""
    items, slots = containers(k, keyed, n)
    with slate_env(env):
        w, d = item_dist(env, "w", k, items, keyed, zero)
        live = k - len(zero)
        space = list(d.slate_space(slots))
        got = {tuple(items.index(i) for i in its): p for its, p in space}
        env.check(len(got) == len(space), "every slate once")
        for o in orders(k, n):
            if any(o[j] in zero for j in range(n)) and live < n:
                continue
            want = plackett(w, o)
            env.close([got.get(o, 0)], [want], "probability of a listed slate", 1e-4)
            env.close([d.slate_probability(sl.make_slate(slots, [items[j] for j in o]))], [want], "probability of a slate", 1e-4)
        if live >= n:
            e = sl.SlateItemProbabilities(named(items, w) if keyed else list(w)).slot_item_expectations(slots)
            for s, slot in enumerate(slots):
                for j in range(k):
                    share = ssum(plackett(w, o) for o in orders(k, n) if o[s] == j)
                    env.close([e[slot][items[j]]], [share], "share of an item at a slot", 1e-4)
            r = [env.num(f"r{j}", -8, 8) for j in range(k)]
            er = e.expected_rewards(sl.SlateItemValues(named(items, r) if keyed else list(r)))
            for slot in slots:
                env.close([er[slot]], [ssum(r[j] * e[slot][items[j]] for j in range(k))], "expected reward at a slot", 1e-3)


for kd in (False, True):
    suite.case(bounds="3 items, 2 slots", k=3, n=2, keyed=kd)(probability_case)
suite.case(bounds="2 items, 2 slots", k=2, n=2, keyed=False)(probability_case)
suite.case(bounds="3 items, 1 slot", k=3, n=1, keyed=True)(probability_case)
suite.case(bounds="3 items, one of zero score, 2 slots", k=3, n=2, keyed=False, zero=(1,))(probability_case)
suite.case(bounds="3 items, 3 slots", k=3, n=3, keyed=False)(probability_case)
suite.case(tier="thorough", bounds="4 items, 2 slots", k=4, n=2, keyed=True)(probability_case)


def greedy_case(env, k, n, keyed):
    items, slots = containers(k, keyed, n)
    with slate_env(env):
        w, d = item_dist(env, "w", k, items, keyed, greedy=True)
        best = ranked(env, w)[:n]
        s = d.sample_slate(slots)
        env.check([items.index(i) for i in s.items] == list(best) and [x for x, _ in s] == list(slots), "best items in order")
        env.check(d.is_deterministic, "deterministic")
        env.check([([items.index(i) for i in its], p) for its, p in d.slate_space(slots)] == [(list(best), 1.0)], "one slate")
        for o in orders(k, n):
            env.eq([d.slate_probability(sl.make_slate(slots, [items[j] for j in o]))], [1.0 if o == tuple(best) else 0.0], "only the best slate")
        e = d.slot_item_expectations(slots)
        for t, slot in enumerate(slots):
            env.eq([e[slot][i] for i in items], [1.0 if best[t] == j else 0.0 for j in range(k)], "the best item is certain")


for kd in (False, True):
    suite.case(bounds="3 items, 2 slots", k=3, n=2, keyed=kd)(greedy_case)


def slot_dist(env, k, n, items, keyed, greedy=False, same=False):
    W = [scores(env, f"w{t}_", k) for t in range(n)]
    if same:
        W = [[x * (t + 1) for x in W[0]] for t in range(n)]
    keys = [sl.SlateSlot(100 - t) for t in range(n)]
    vals = [sl.SlateItemValues(named(items, r) if keyed else list(r)) for r in W]
    return W, sl.SlateSlotItemProbabilities(dict(zip(keys, vals)) if keyed else vals, greedy)


def sequential(W, pick):
    p = 1
    for t, j in enumerate(pick):
        p = p * W[t][j] / (ssum(W[t]) - ssum(W[t][i] for i in pick[:t]))
    return p


def slots_case(env, k, n, keyed, same):
    """each slot draws from its own distribution among the items not used before"""
    items, slots = containers(k, keyed, n)
    with slate_env(env):
        W, d = slot_dist(env, k, n, items, keyed, same=same)
        for o in orders(k, n):
            env.close([d.slate_probability(sl.make_slate(slots, [items[j] for j in o]))], [sequential(W, o)], "probability of a slate", 1e-4)
        e = d.slot_item_expectations()
        for s, slot in enumerate(slots):
            for j in range(k):
                env.close([e[slot][items[j]]], [ssum(sequential(W, o) for o in orders(k, n) if o[s] == j)], "share of an item at a slot" + ("" if same else " with its own scores"), 1e-4)


for kd in (False, True):
    suite.case(bounds="3 items, 2 slots of proportional scores", k=3, n=2, keyed=kd, same=True)(slots_case)
suite.case(bounds="3 items, 3 slots of proportional scores", k=3, n=3, keyed=False, same=True)(slots_case)
suite.case(bounds="3 items, 2 slots, each with its own scores", k=3, n=2, keyed=False, same=False)(slots_case)
suite.case(bounds="3 items, 1 slot", k=3, n=1, keyed=False, same=False)(slots_case)


def slots_greedy_case(env, k, n, keyed):
    items, slots = containers(k, keyed, n)
    with slate_env(env):
        W, d = slot_dist(env, k, n, items, keyed, greedy=True)
        picks = []
        for t in range(n):
            j = env.pick(f"best{t}", list(range(k)))
            if j in picks:
                env.assume(False)
            for i in range(k):
                if i != j and i not in picks:
                    env.assume(W[t][j] >= W[t][i] + 0.0625)
                elif i != j:
                    env.assume(sor(W[t][j] >= W[t][i] + 0.0625, W[t][j] + 0.0625 <= W[t][i]))
            picks.append(j)
        s = d.sample_slate(slots)
        env.check([items.index(i) for i in s.items] == picks, "each slot takes its best unused item")
        for o in orders(k, n):
            env.eq([d.slate_probability(sl.make_slate(slots, [items[j] for j in o]))], [1.0 if list(o) == picks else 0.0], "only the best slate")
        e = d.slot_item_expectations()
        for t, slot in enumerate(slots):
            env.eq([e[slot][i] for i in items], [1.0 if picks[t] == j else 0.0 for j in range(k)], "the best item is certain")


for kd in (False, True):
    suite.case(bounds="3 items, 2 slots", k=3, n=2, keyed=kd)(slots_greedy_case)


def slate_case(env, k, n, keyed):
    """values and features of a slate belong to the items at its slots"""
    items, slots = containers(k, keyed, n)
    with slate_env(env):
        v = [env.num(f"v{j}", -8, 8) for j in range(k)]
        f = env.real("f", k, 2)
        pick = env.pick("slate", orders(k, n))
        s = sl.make_slate(slots, [items[j] for j in pick] + [items[0]])
        env.check(len(s) == n and list(s.slots) == list(slots) and [x for _, x in s] == [items[j] for j in pick], "items at their slots")
        vals = s.slot_values(sl.SlateItemValues(named(items, v) if keyed else list(v)))
        env.eq([vals[t] for t in slots], [v[j] for j in pick], "values at their slots")
        feats = s.slot_features(sl.SlateItemFeatures({i: f[j] for j, i in enumerate(items)} if keyed else f))
        F = env.L(f)
        env.eq(feats.features, [F[j] for j in pick], "features at their slots")
        for t, j in zip(slots, pick):
            env.eq(feats[t], F[j], "features at their slots")
        oh = s.one_hots(sl.SlateItems(items) if keyed else sl.SlateItems(k))
        env.eq(oh, [[1 if i == j else 0 for i in range(k)] for j in pick], "indicators of the items")
        x = [env.num(f"x{t}", -8, 8) for t in range(n)]
        filled = slots.fill(list(x))
        env.eq([filled[t] for t in slots], x, "slot values")
        env.check(env.raises(lambda: sl.make_slate(slots, [items[0]] * (n - 1))) if n > 1 else True, "too few items")


for kd in (False, True):
    suite.case(bounds="3 items, 2 slots", k=3, n=2, keyed=kd)(slate_case)


def log2(x):
    return float(np.log2(x))


def metric_case(env, k, n, keyed, slates=None):
    items, slots = containers(k, keyed, n)
    with slate_env(env):
        v = [env.num(f"v{j}", 0, 3) for j in range(k)]
        order = ranked(env, v)
        pick = env.pick("slate", slates or orders(k, n))
        mk = lambda xs: sl.SlateItemValues(named(items, xs) if keyed else list(xs))
        s = sl.make_slate(slots, [items[j] for j in pick])
        rew = s.slot_values(mk(v))
        env.close([sl.SlateMetric()(slots, rew)], [ssum(v[j] for j in pick)], "sum of rewards", 1e-4)
        g = lambda j: 2 ** v[j] - 1
        dev = torch.device("cpu") if keyed else None
        dcg = ssum(g(j) / log2(t + 2) for t, j in enumerate(pick))
        for m in (n, 1, n):
            # the discount of one slate size does not leak into another
            part = sl.SlateSlots(list(slots)[:m]) if keyed else sl.SlateSlots(m)
            part_rew = sl.make_slate(part, [items[j] for j in pick]).slot_values(mk(v))
            env.close([sl.DCGSlateMetric(dev)(part, part_rew)], [ssum(g(j) / log2(t + 2) for t, j in enumerate(pick[:m]))], "discounted gain", 1e-3)
        ideal = ssum(g(j) / log2(t + 2) for t, j in enumerate(order[:n]))
        nd = sl.NDCGSlateMetric(mk(v), dev)
        one = sl.SlateSlots(list(slots)[:1]) if keyed else sl.SlateSlots(1)
        for again in range(2):
            env.close([nd(slots, rew) * ideal], [dcg], "gain relative to the best slate", 1e-3)
            env.close([nd(one, sl.make_slate(one, [items[pick[0]]]).slot_values(mk(v))) * g(order[0])], [g(pick[0])], "gain relative to the best item", 1e-3)


for kd in (False, True):
    suite.case(bounds="3 items, 2 slots, two of the slates", k=3, n=2, keyed=kd, slates=[(1, 0), (2, 1)])(metric_case)
    suite.case(tier="thorough", bounds="3 items, 2 slots, every slate", k=3, n=2, keyed=kd)(metric_case)


def nothing_case(env, k, n):
    """no item has any reward"""
    with slate_env(env):
        slots = sl.SlateSlots(n)
        nd = sl.NDCGSlateMetric(sl.SlateItemValues([0.0] * k))
        x = [env.num(f"x{t}", 0, 3) for t in range(n)]
        env.eq([nd(slots, sl.SlateSlotValues(list(x)))], [0], "no gain to be had")


suite.case(bounds="3 items, 2 slots", k=3, n=2)(nothing_case)


def err_case(env, n, top):
    with slate_env(env):
        x = [env.num(f"x{t}", -1, top + 1) for t in range(n)]
        slots = sl.SlateSlots(n)
        p, out = 1, 0
        for t, v in enumerate(x):
            r = (2 ** clamp(v, 0, top) - 1) / 2 ** top
            out = out + p * r / (t + 1)
            p = p * (1 - r)
        env.close([sl.ERRSlateMetric(top)(slots, sl.SlateSlotValues(list(x)))], [out], "expected reciprocal rank", 1e-3)


suite.case(bounds="2 slots, grades up to 3", n=2, top=3.0)(err_case)
suite.case(bounds="3 slots, grades up to 1", n=3, top=1.0)(err_case)


def reward_dist_case(env, k, kind, keyed):
    items, _ = containers(k, keyed, 1)
    with slate_env(env):
        v = [env.num(f"v{j}", 0.125, 4) for j in range(k)]
        mk = sl.SlateItemValues(named(items, v) if keyed else list(v))
        if kind == "pass":
            d, want = sl.PassThruDistribution(), list(v)
        elif kind == "frechet":
            d, want = sl.FrechetDistribution(2.0, True), [x * x for x in v]
        elif kind == "off":
            d, want = sl.RankingDistribution(), list(v)
        else:
            perm = ranked(env, v)
            d = sl.RankingDistribution(kind)
            want = [0] * k
            for rank, j in enumerate(perm):
                want[j] = 2.0 ** -float(np.floor(kind * np.log2(rank + 1)))
        p = d(mk)
        env.check(p.is_deterministic == (kind == "frechet"), "deterministic as asked")
        env.close([p[i] for i in items], want, "weight of each item", 1e-4)
        env.eq([mk[i] for i in items], v, "rewards are not changed")


for kn in ("pass", "frechet", "off", 1.0, 2.5, 0.0):
    suite.case(bounds="3 items", k=3, kind=kn, keyed=kn in ("pass", 2.5))(reward_dist_case)


# ------------------------------------------------------------------ estimators
def pinv(m):
    """the pseudo-inverse of a rank-one symmetric matrix u u^T"""
    m = np.asarray(m, dtype=object)
    tr = ssum(m[i, i] for i in range(len(m)))
    out = np.empty(m.shape, dtype=object)
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            out[i, j] = m[i, j] / (tr * tr)
    return out


def given_sample(env, i, k=2, n=1, **kw):
    a, b = env.num(f"lp{i}", 0, 1), env.num(f"tp{i}", 0, 1)
    for x in (a, b):
        env.assume(sor(x == 0, x >= 0.125))
    env.assume(sor(a == b, a - b >= 0.0625, b - a >= 0.0625))
    r, g = env.num(f"r{i}", -8, 8), env.num(f"g{i}", -8, 8)
    slots = sl.SlateSlots(n)
    s = sl.LogSample(sl.SlateContext(sl.SlateQuery((i,)), slots), sl.SlateMetric(), sl.make_slate(slots, [I(j) for j in range(n)]), r, _log_slate_probability=a, _tgt_slate_probability=b, ground_truth_reward=g,
                     **kw)
    return types.SimpleNamespace(lp=a, tp=b, r=r, g=g, s=s)


def weight_of(env, x, lo, hi):
    """None when the target needs a slate that was never logged"""
    if bool(x.tp == x.lp):
        return 1
    if bool(x.tp == 0):
        return 0
    if bool(x.lp == 0):
        return None
    w = x.tp / x.lp
    return w if lo is None else clamp(w, lo, hi)


def aggregate(env, got, use, weighted, label):
    """use: (sample, weight, target reward)"""
    if not use:
        env.check(got is None, "no usable sample, no estimate")
        return
    W = ssum(w for _, w, _ in use)
    if weighted:
        env.close([got.estimated_reward * W], [ssum(t for _, _, t in use)], label + ", self-normalised", 1e-2)
        env.close([got.estimated_weight], [W / len(use)], "mean weight", 1e-3)
    else:
        env.close([got.estimated_reward], [mean(t for _, _, t in use)], label, 1e-2)
        env.check(got.estimated_weight == len(use), "number of samples")
    env.close([got.log_reward], [mean(x.r for x, _, _ in use)], "logged score", 1e-3)
    env.close([got.ground_truth_reward], [mean(x.g for x, _, _ in use)], "ground truth", 1e-3)


def ips_case(env, n, weighted, clamped):
    lo, hi = (0.25, 2.0) if clamped else (None, None)
    with slate_env(env):
        xs = [given_sample(env, i) for i in range(n)]
        ws = [weight_of(env, x, lo, hi) for x in xs]
        use = [(x, w, w * x.r) for x, w in zip(xs, ws) if w is not None]
        if weighted and use:
            env.assume(ssum(w for _, w, _ in use) >= 0.125)
        est = sl.IPSEstimator(Clamper(lo, hi) if clamped else None, weighted)
        got = est.evaluate(sl.SlateEstimatorInput([x.s for x in xs]))
    aggregate(env, got, use, weighted, "inverse propensity")


for wt in (False, True):
    suite.case(bounds="2 samples with given probabilities", n=2, weighted=wt, clamped=False)(ips_case)
    suite.case(bounds="2 samples with given probabilities, clamped", n=2, weighted=wt, clamped=True)(ips_case)


def dist_sample(env, i, k, n, pick, by_slot=False, feats=0, weights=False, probs=False, logged=None):
    """logged and target distributions over items; the probabilities of the slate follow from them"""
    slots = sl.SlateSlots(n)
    lw, tw = logged or scores(env, f"lw{i}_", k), scores(env, f"tw{i}_", k)
    r, g = (3.0 if logged and k > 2 else env.num(f"r{i}", -8, 8)), env.num(f"g{i}", -8, 8)
    f = env.real(f"f{i}_", k, feats, lo=-4, hi=4) if feats else None
    mk = lambda w: (dict(slot=sl.SlateSlotItemProbabilities([sl.SlateItemValues(list(w)) for _ in range(n)])) if by_slot else dict(item=sl.SlateItemProbabilities(list(w))))
    L, T = mk(lw), mk(tw)
    sw = ([0.5, 1.5, 2.0][:n] if logged else [env.num(f"sw{i}_{t}", 0.125, 2) for t in range(n)]) if weights else None
    sp = ([1.0, 0.25, 0.5][:n] if logged else [env.num(f"sp{i}_{t}", 0.125, 1) for t in range(n)]) if probs else None
    s = sl.LogSample(sl.SlateContext(sl.SlateQuery((i,)), slots), sl.SlateMetric(), sl.make_slate(slots, [I(j) for j in pick]), r,
                     _log_slot_item_probabilities=L.get("slot"), _log_item_probabilities=L.get("item"), _tgt_slot_item_probabilities=T.get("slot"), _tgt_item_probabilities=T.get("item"),
                     ground_truth_reward=g, item_features=sl.SlateItemFeatures(f) if feats else None,
                     slot_weights=sl.SlateSlotValues(list(sw)) if weights else None, slot_probabilities=sl.SlateSlotValues(list(sp)) if probs else None)
    return types.SimpleNamespace(lw=lw, tw=tw, r=r, g=g, s=s, f=f, pick=pick, sw=sw, sp=sp)


def ratio(env, x, lo=None, hi=None):
    l, t = plackett(x.lw, x.pick), plackett(x.tw, x.pick)
    env.assume(sor(l - t >= 1e-3, t - l >= 1e-3))
    w = t / l
    return w if lo is None else clamp(w, lo, hi)


def share(w, n, t, j):
    return ssum(plackett(w, o) for o in orders(len(w), n) if o[t] == j)


def derived_case(env, by_slot):
    """probabilities derived from the logged and target distributions"""
    with slate_env(env):
        x = dist_sample(env, 0, 3, 2, (2, 0), by_slot, logged=[1.0, 2.5, 0.5])
        w = ratio(env, x)
        got = sl.IPSEstimator(weighted=False).evaluate(sl.SlateEstimatorInput([x.s]))
        env.close([got.estimated_reward], [x.r * w], "inverse propensity", 1e-2)
        env.close([x.s.log_slate_probability(), x.s.tgt_slate_probability()], [plackett(x.lw, (2, 0)), plackett(x.tw, (2, 0))], "probabilities of the logged slate", 1e-4)
        other = sl.make_slate(x.s.context.slots, [I(1), I(2)])
        env.close([x.s.log_slate_probability(other)], [plackett(x.lw, (1, 2))], "probability of another slate", 1e-4)
        env.check(len(x.s.items) == 3, "items")


for bs in (False, True):
    suite.case(bounds="3 items, 2 slots", by_slot=bs)(derived_case)


def features(env, x, o):
    F = env.L(x.f)
    return [v for j in o for v in F[j]]


def model_case(env, kind, n, k, slots, ratio_, weighted=False, clamped=False):
    """a reward model fitted to the leading samples and used on the rest (on all when none is left)"""
    lo, hi = (0.25, 2.0) if clamped else (None, None)
    m = Model(env)
    m.reset = lambda: m.fits.clear()
    with slate_env(env):
        picks = [orders(k, slots)[(2 * i + 1) % len(orders(k, slots))] for i in range(n)]
        xs = [dist_sample(env, i, k, slots, picks[i], feats=1) for i in range(n)]
        est = sl.DMEstimator(m, ratio_) if kind == "dm" else sl.DoublyRobustEstimator(m, ratio_, Clamper(lo, hi) if clamped else None, weighted)
        cut = int(n * ratio_) if 0 < ratio_ < 1 else n
        test = xs[cut:] or xs
        vals = []
        ws = [ratio(env, x, lo, hi) if kind == "dr" else 1 for x in test]
        if weighted:
            env.assume(ssum(ws) >= 0.125)
        got = est.evaluate(sl.SlateEstimatorInput([x.s for x in xs]))
        env.check(len(m.fits) == 1, "one fit")
        d = m.fits[0]
        env.eq(d.train_x, [features(env, x, x.pick) for x in xs[:cut]], "training slates")
        env.eq(d.train_y, [x.r for x in xs[:cut]], "training rewards")
        env.eq(d.validation_x, [features(env, x, x.pick) for x in (xs[cut:] or xs)], "validation slates")
        env.eq(d.validation_y, [x.r for x in (xs[cut:] or xs)], "validation rewards")
        for x, w in zip(test, ws):
            dm = ssum(plackett(x.tw, o) * m.value(features(env, x, o)) for o in orders(k, slots))
            vals.append((x, w, dm if kind == "dm" else dm + w * (x.r - m.value(features(env, x, x.pick)))))
    aggregate(env, got, vals, weighted, "direct value" if kind == "dm" else "doubly robust value")


suite.case(bounds="2 samples, 2 items, 1 slot, half for training", kind="dm", n=2, k=2, slots=1, ratio_=0.5)(model_case)
suite.case(bounds="2 samples, 3 items, 2 slots, half for training", kind="dm", n=2, k=3, slots=2, ratio_=0.5)(model_case)
suite.case(bounds="2 samples, 2 items, 1 slot, all for training", kind="dm", n=2, k=2, slots=1, ratio_=1.0)(model_case)
suite.case(bounds="3 samples, 2 items, 1 slot, a third for training", kind="dr", n=3, k=2, slots=1, ratio_=0.4)(model_case)
suite.case(bounds="2 samples, 2 items, 1 slot, all for training, self-normalised", kind="dr", n=2, k=2, slots=1, ratio_=0.0, weighted=True)(model_case)
suite.case(bounds="2 samples, 2 items, 2 slots, half for training, clamped", kind="dr", n=2, k=2, slots=2, ratio_=0.5, clamped=True)(model_case)


def click_case(env, kind, n, k, slots, weighted, extra=False, by_slot=False, clamped=False, logged=None):
    lo, hi = (0.25, 2.0) if clamped else (None, None)
    with slate_env(env), env.patch(np.linalg, "pinv", pinv if env.sym else np.linalg.pinv):
        picks = [orders(k, slots)[(2 * i + 1) % len(orders(k, slots))] for i in range(n)]
        xs = [dist_sample(env, i, k, slots, picks[i], by_slot, weights=extra, probs=extra, logged=logged) for i in range(n)]
        use = []
        for x in xs:
            P = [[share(x.lw, slots, t, j) for j in range(k)] for t in range(slots)]
            H = [[share(x.tw, slots, t, j) for j in range(k)] for t in range(slots)]
            if k > 2:  # the reported shares, which have their own cases
                e = sl.SlateItemProbabilities(list(x.tw)).slot_item_expectations(sl.SlateSlots(slots))
                H = [[v for _, v in row] for _, row in e]
            if kind == "position":
                c = [(x.sw[t] * x.sp[t] if extra else 1) for t in range(slots)]
                nu = ssum(c[t] * H[t][x.pick[t]] for t in range(slots))
                de = ssum(c[t] * P[t][x.pick[t]] for t in range(slots))
                env.assume(sor(nu - de >= 1e-3, de - nu >= 1e-3))
                w = nu / de
            else:
                pp = ssum(v * v for r in P for v in r)
                w = ssum(dot(a, b) for a, b in zip(H, P)) * ssum(P[t][x.pick[t]] for t in range(slots)) / (pp * pp)
            if clamped:
                w = clamp(w, lo, hi)
            use.append((x, w, w * x.r))
        est = (sl.PBMEstimator if kind == "position" else sl.PseudoInverseEstimator)(Clamper(lo, hi) if clamped else None, weighted)
        if weighted:
            env.assume(ssum(w for _, w, _ in use) >= 0.125)
        got = est.evaluate(sl.SlateEstimatorInput([x.s for x in xs]))
        if extra:
            for x in xs:
                env.eq([v for _, v in x.s.slot_weights], x.sw, "slot weights are not changed")
    aggregate(env, got, use, weighted, "position-based estimate" if kind == "position" else "pseudo-inverse estimate")


suite.case(bounds="2 samples, 2 items, 1 slot", kind="position", n=2, k=2, slots=1, weighted=True)(click_case)
suite.case(bounds="1 sample, 3 items, 2 slots, weighted and examined slots", kind="position", n=1, k=3, slots=2, weighted=False, extra=True, logged=[1.0, 2.5, 0.5])(click_case)
suite.case(bounds="1 sample, 2 items, 1 slot, weighted and examined slots", kind="position", n=1, k=2, slots=1, weighted=False, extra=True)(click_case)
suite.case(bounds="1 sample, 2 items, 2 slots by slot, clamped", kind="position", n=1, k=2, slots=2, weighted=False, by_slot=True, clamped=True)(click_case)
suite.case(bounds="2 samples, 2 items, 1 slot", kind="inverse", n=2, k=2, slots=1, weighted=False, logged=[1.0, 2.5])(click_case)
suite.case(bounds="1 sample, 2 items, 2 slots", kind="inverse", n=1, k=2, slots=2, weighted=False, logged=[1.0, 2.5])(click_case)
suite.case(bounds="1 sample, 2 items, 1 slot, clamped, self-normalised", kind="inverse", n=1, k=2, slots=1, weighted=True, clamped=True, logged=[1.0, 2.5])(click_case)


def missing_case(env, n):
    """estimators that need distributions skip samples without them"""
    with slate_env(env):
        xs = [given_sample(env, i) for i in range(n)]
        for e in (sl.PBMEstimator(), sl.PseudoInverseEstimator()):
            env.check(e.evaluate(sl.SlateEstimatorInput([x.s for x in xs])) is None, "no usable sample, no estimate")
        m = Model(env)
        m.reset = lambda: m.fits.clear()
        env.check(sl.DMEstimator(m, 0.5).evaluate(sl.SlateEstimatorInput([x.s for x in xs])) is None, "no features, no direct estimate")
        ws = [weight_of(env, x, None, None) for x in xs]
        use = [(x, w, w * x.r) for x, w in zip(xs, ws) if w is not None]
        if use:
            got = sl.DoublyRobustEstimator(m, 0.5).evaluate(sl.SlateEstimatorInput([x.s for x in xs]))
            aggregate(env, got, use, False, "doubly robust without a model is inverse propensity")


suite.case(bounds="2 samples with given probabilities", n=2)(missing_case)


def validate_case(env):
    """a sample with a probability above one is refused"""
    with slate_env(env):
        p = [env.num(f"p{i}", 0, 2) for i in range(2)]
        slots = sl.SlateSlots(1)
        s = sl.LogSample(sl.SlateContext(sl.SlateQuery((0,)), slots), sl.SlateMetric(), sl.make_slate(slots, [I(0)]), 1.0, _log_slate_probability=p[0], _tgt_slate_probability=p[1])
        bad = env.raises(lambda: sl.SlateEstimatorInput([s]).validate())
        env.check(sor(p[0] > 1, p[1] > 1) if bad else sand(p[0] <= 1, p[1] <= 1), "probabilities are at most one")


suite.case(bounds="one sample")(validate_case)
