"""Feature preprocessing: the transform of every feature type, missing values, column order, output range."""
from reagent.parameters import NormalizationParameters
from reagent.preprocessing import identify_types as it
from reagent.preprocessing.normalization import (EPS, MAX_FEATURE_VALUE, get_feature_start_indices, get_num_output_features,
                                                 sort_features_by_normalization)
from reagent.preprocessing.preprocessor import Preprocessor
from checks.common import *

suite = Suite("D18", ["raw values lie in [-1000, 1000]", "normalization parameters are finite, with positive deviations and increasing quantiles"])
ORDER = ["BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE", "CONTINUOUS_ACTION", "DISCRETE_ACTION", "DO_NOT_PREPROCESS", "CLIP_LOG"]


def params(env, tag, ty, k=3):
    """arbitrary valid parameters of one feature"""
    n = lambda s, lo, hi: env.num(f"{tag}.{s}", lo, hi)
    P = dict(feature_type=ty)
    if ty in ("CONTINUOUS", "BOXCOX"):
        P.update(mean=n("mean", -8, 8), stddev=n("std", 0.5, 8))
    if ty == "BOXCOX":
        P.update(boxcox_lambda=env.pick(f"{tag}.lambda", [0.5, 2.0, -1.0]), boxcox_shift=n("shift", -4, 4))
    if ty == "ENUM":
        P.update(possible_values=[3, 0, 7][:k])
    if ty == "QUANTILE":
        q = [n("q0", -8, 8)]
        for i in range(1, k):
            q.append(q[-1] + n(f"q{i}", 0.25, 4))
        P.update(quantiles=q)
    if ty == "CONTINUOUS_ACTION":
        lo = n("min", -8, 8)
        P.update(min_value=lo, max_value=lo + n("range", 0.5, 8))
    out = NormalizationParameters(feature_type=ty)
    for k, v in P.items():        # past the field validation, which converts to float
        object.__setattr__(out, k, v)
    return out


def rough(x, p):
    """columns of one present value before limiting"""
    ty = p.feature_type
    if ty == "BINARY":
        return [ite(x == 0, 0, 1)]
    if ty == "PROBABILITY":
        return [-slog(1 / clamp(x, 0.01, 0.99) - 1)]
    if ty == "CONTINUOUS":
        return [(x - p.mean) / p.stddev]
    if ty == "BOXCOX":
        y = smax(x + p.boxcox_shift, 1e-6)
        l = p.boxcox_lambda
        y = (1 / y - 1) / l if l == -1 else ((y * y - 1) / l if l == 2 else (ssqrt(y) - 1) / l)
        return [(y - p.mean) / p.stddev]
    if ty == "ENUM":
        return [ite(x == v, 1, 0) for v in p.possible_values]
    if ty == "QUANTILE":
        q = p.quantiles
        r = 0
        for j in range(len(q) - 1):        # percentile of x: boundary j counts j/(n-1), linear in between
            r = ite(x >= q[j], (j + (x - q[j]) / (q[j + 1] + EPS - q[j])) / (len(q) - 1), r)
        return [ite(x >= q[-1], 1, ite(x <= q[0], 0, r))]
    if ty == "CONTINUOUS_ACTION":
        return [clamp((x - p.min_value) * (2 * (1 - EPS)) / (p.max_value - p.min_value) - 1 + EPS, -1 + EPS, 1 - EPS)]
    if ty == "CLIP_LOG":
        return [slog(smax(x, EPS))]
    return [x]


def columns(x, here, p):
    """missing values become zero; everything but pass-through features is limited to [-6, 6]"""
    lim = (lambda v: v) if p.feature_type == "DO_NOT_PREPROCESS" else (lambda v: clamp(v, -6, 6))
    return [ite(here, lim(v), 0) for v in rough(x, p)]


def transform_case(env, types, B=1, train=False, k=3, tol=None):
    """types: feature id -> type; ids are handed over in dictionary order, columns go by type and id"""
    P = {f: params(env, f"f{f}", ty, k) for f, ty in types.items()}
    order = [f for ty in ORDER for f in sorted(types) if types[f] == ty]
    pre = Preprocessor(P, device=torch.device("cpu"))
    pre.train(train)
    env.check(list(pre.sorted_features) == order, "column order: by type, then by feature id")
    env.check(pre.feature_id_to_index == {f: i for i, f in enumerate(order)}, "column of each feature")
    srt, starts = sort_features_by_normalization(P)
    env.check(list(srt) == order and len(starts) == len(ORDER), "column order: by type, then by feature id")
    cnt = [sum(1 for f in order if types[f] == ty) for ty in ORDER]
    env.check(list(starts) == [sum(cnt[:i]) for i in range(len(ORDER))], "where each type starts")
    width = [len(P[f].possible_values) if types[f] == "ENUM" else 1 for f in order]
    env.check(get_num_output_features(P) == sum(width), "number of outputs")
    env.check(get_feature_start_indices(order, P) == [sum(width[:i]) for i in range(len(order))], "where each feature's outputs start")
    x = env.real("x", B, len(order), lo=-1000, hi=1000)
    pres = env.bools("present", B, len(order))
    X, H = env.L(x), env.L(pres)
    for b in range(B):
        for i, f in enumerate(order):     # stay off the limits of the logarithm in training, where they are refused
            if types[f] == "DISCRETE_ACTION" and train:
                env.assume(sabs(X[b][i]) <= 6)
            if types[f] == "CLIP_LOG" and train:
                env.assume(sand(X[b][i] >= 0.0078125, X[b][i] <= 256))
            if types[f] == "BOXCOX" and env.sym is False:
                env.assume(sor(X[b][i] + P[f].boxcox_shift <= 0, X[b][i] + P[f].boxcox_shift > 0.0078125))
    got = env.L(pre(x, pres))
    for b in range(B):
        want = [v for i, f in enumerate(order) for v in columns(X[b][i], H[b][i], P[f])]
        env.check(len(got[b]) == len(want), "number of outputs")
        for i, (g, w) in enumerate(zip(got[b], want)):
            env.close([g], [w], f"output[{i}]", 1e-4)


for ty in ORDER:
    suite.case(bounds="1 feature of each type alone, 1 row, any value, presence and parameters", types={5: ty})(transform_case)
suite.case(bounds="2 quantile features, 4 boundaries", types={5: "QUANTILE", 3: "QUANTILE"}, k=4)(transform_case)
suite.case(bounds="mixed types, shuffled ids", types={9: "CONTINUOUS", 2: "BINARY", 5: "ENUM", 1: "ENUM", 4: "CONTINUOUS", 7: "DO_NOT_PREPROCESS"})(transform_case)
suite.case(bounds="actions and probabilities", types={3: "DISCRETE_ACTION", 8: "CONTINUOUS_ACTION", 2: "CONTINUOUS_ACTION", 1: "PROBABILITY", 6: "CLIP_LOG"})(transform_case)
suite.case(bounds="2 rows, while training", types={3: "CONTINUOUS", 1: "QUANTILE", 2: "DISCRETE_ACTION", 4: "ENUM"}, B=2, train=True)(transform_case)
suite.case(tier="thorough", bounds="all types at once", types={i: ty for i, ty in zip([4, 9, 1, 12, 3, 8, 2, 7, 6, 11], ORDER)}, k=2)(transform_case)
suite.case(tier="thorough", bounds="3 quantile features, 5 boundaries", types={5: "QUANTILE", 3: "QUANTILE", 8: "QUANTILE"}, k=5)(transform_case)


def ragged_case(env):
    """quantile features with different numbers of boundaries share one block"""
    P = {1: params(env, "a", "QUANTILE", 2), 2: params(env, "b", "QUANTILE", 4)}
    pre = Preprocessor(P, device=torch.device("cpu"))
    x = env.real("x", 1, 2, lo=-1000, hi=1000)
    got, X = env.L(pre(x, torch.ones(1, 2, dtype=torch.uint8)))[0], env.L(x)[0]
    for i, f in enumerate([1, 2]):
        env.close([got[i]], columns(X[i], True, P[f]), f"percentile[{i}]", 1e-4)


suite.case(bounds="2 and 4 boundaries")(ragged_case)
