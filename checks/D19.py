"""Normalization: identified types and statistics, action rescaling and its inverse."""
import contextlib
import numpy as np
from reagent.parameters import NormalizationParameters
from reagent.preprocessing import identify_types as it
from reagent.preprocessing import normalization as norm
from reagent.preprocessing.normalization import EPS
from reagent.preprocessing.postprocessor import Postprocessor
from reagent.preprocessing.preprocessor import Preprocessor
from checks.common import *
from checks.D18 import params

suite = Suite("D19", ["action values lie in [-1000, 1000]; ranges are between 1/2 and 8 wide", "normality tests and the Box-Cox fit return arbitrary statistics"])


def inverse_case(env, ids, B=1):
    """training range and serving range are mapped onto each other"""
    P = {f: params(env, f"f{f}", "CONTINUOUS_ACTION") for f in ids}
    order = sorted(ids)
    pre, post = Preprocessor(P, device=torch.device("cpu")), Postprocessor(P, use_gpu=False)
    pre.eval()
    x = env.real("x", B, len(ids), lo=-1000, hi=1000)
    ones = torch.ones(B, len(ids), dtype=torch.uint8)
    back = env.L(post(pre(x, ones)))
    for b, row in enumerate(env.L(x)):
        for i, f in enumerate(order):
            env.close([back[b][i]], [clamp(row[i], P[f].min_value, P[f].max_value)], "serving value after the round trip", 2e-3)
    y = env.real("y", B, len(ids), lo=-3, hi=3)
    serve = post(y)
    lim = 1 - EPS
    for b, row in enumerate(env.L(y)):
        for i, f in enumerate(order):
            v = env.L(serve)[b][i]
            env.close([v], [P[f].min_value + (clamp(row[i], -lim, lim) + lim) * (P[f].max_value - P[f].min_value) / (2 * lim)], "serving value of an action", 2e-3)
            env.le(P[f].min_value - 0.0001, v, "inside the serving range")
            env.le(v, P[f].max_value + 0.0001, "inside the serving range")
    again = env.L(pre(serve, ones))
    for b, row in enumerate(env.L(y)):
        for i, f in enumerate(order):
            env.close([again[b][i]], [clamp(row[i], -lim, lim)], "training value after the round trip", 2e-3)


suite.case(bounds="1 action dimension", ids=[4])(inverse_case)
suite.case(bounds="3 action dimensions, shuffled ids", ids=[4, 9, 1])(inverse_case)


def passthrough_case(env, ty):
    P = {f: params(env, f"f{f}", ty) for f in (7, 2)}
    y = env.real("y", 2, 2)
    post = Postprocessor(P, use_gpu=False)
    env.eq(post(y), y, "served unchanged")
    env.check(env.raises(lambda: Postprocessor({1: params(env, "a", "CONTINUOUS"), 2: params(env, "b", "CONTINUOUS")}, use_gpu=False)), "only actions are served")
    env.check(env.raises(lambda: Postprocessor({1: params(env, "c", ty), 2: params(env, "d", "CONTINUOUS_ACTION")}, use_gpu=False)), "one type for all dimensions")


for ty in ("DISCRETE_ACTION", "DO_NOT_PREPROCESS"):
    suite.case(bounds="2 dimensions", ty=ty)(passthrough_case)


def scale_case(env, ids, over):
    """serving ranges by column, overridden where asked"""
    P = {f: params(env, f"f{f}", "CONTINUOUS_ACTION") for f in ids}
    O = {f: [env.num(f"lo{f}", -8, 8), env.num(f"hi{f}", -8, 8)] for f in over}
    obj = np.zeros
    with env.patch(norm.np, "zeros", lambda shape, *a, **k: obj(shape, object) if env.sym else obj(shape, *a, **k)), \
            env.patch(torch, "from_numpy", (lambda a: env.mk([[unwrap(v) for v in r] for r in a])) if env.sym else torch.from_numpy):
        lo, hi = norm.construct_action_scale_tensor(P, O)
    order = sorted(ids)
    env.eq(env.L(lo), [[O[f][0] if f in O else P[f].min_value for f in order]], "lower ends")
    env.eq(env.L(hi), [[O[f][1] if f in O else P[f].max_value for f in order]], "upper ends")


suite.case(bounds="3 dimensions, 1 override", ids=[4, 9, 1], over=[9])(scale_case)
suite.case(bounds="2 dimensions, 2 overrides", ids=[4, 1], over=[1, 4])(scale_case)


class Float(float):
    def __new__(cls, x):
        x = x.item() if isinstance(x, torch.Tensor) else x
        return x if hasattr(x, "e") else float(x)


@contextlib.contextmanager
def fl(env, mod):
    """float() of a symbolic number is that number, and it is finite"""
    fin, close = np.isfinite, np.isclose
    with env.patch(mod, "float", Float), env.patch(np, "isfinite", lambda x: True if hasattr(x, "e") else fin(x)), \
            env.patch(np, "isclose", lambda x, y: bool(sabs(x - y) <= 1e-8) if hasattr(x, "e") else close(x, y)):
        yield


def type_case(env, n, threshold):
    half = [env.inum(f"v{i}", -2, 5) for i in range(n)]
    v = [h / 2 for h in half]
    a = np.array(v, dtype=object) if env.sym else np.array([float(x) for x in v])
    with fl(env, it):
        got = it.identify_type(a, threshold)
    binary = sor(sand(*[sor(x == 0, x == 1) for x in v]), sand(*[x == v[0] for x in v]))
    prob = sand(*[sand(x >= 0, x <= 1) for x in v])
    distinct = ssum(ite(sand(*[snot(v[j] == v[i]) for j in range(i)]), 1, 0) for i in range(n))
    enum = sand(*[sand(x >= 0, sor(*[x == k for k in range(3)])) for x in v], distinct <= threshold)
    want = ite(binary, 0, ite(prob, 1, ite(enum, 2, 3)))
    env.eq({"BINARY": 0, "PROBABILITY": 1, "ENUM": 2, "CONTINUOUS": 3}[got], want, "identified type")


suite.case(bounds="3 values in {-1, -1/2, ..., 5/2}", n=3, threshold=2)(type_case)
suite.case(bounds="2 values in {-1, -1/2, ..., 5/2}", n=2, threshold=100)(type_case)
suite.case(tier="thorough", bounds="4 values in {-1, -1/2, ..., 5/2}", n=4, threshold=3)(type_case)


def samples(env, free=2):
    base = [0.5, 1.5, 2.0, 2.5, 4.0, 1.0, 3.0, 3.5, 0.25, 0.75] * 2
    v = [env.num(f"v{i}", 0, 8) for i in range(free)] + base[free:]
    return v, (np.array(v, dtype=object) if env.sym else np.array(v, dtype=np.float64))


def moments(v):
    m = ssum(v) / len(v)
    return m, ssqrt(ssum((x - m) * (x - m) for x in v) / (len(v) - 1))


def stats_case(env, ty):
    """range, mean and deviation of the samples; a deviation below one counts as one"""
    v, a = samples(env)
    with fl(env, norm):
        p = norm.identify_parameter("f", a, feature_type=ty)
    m, sd = moments(v)
    env.check(p.feature_type == ty, "the given type is kept")
    env.close([raw(p, "min_value")], [smin(*v)], "smallest", 1e-5)
    env.close([raw(p, "max_value")], [smax(*v)], "largest", 1e-5)
    if ty in ("CONTINUOUS_ACTION", "DO_NOT_PREPROCESS"):
        env.close([raw(p, "mean")], [m], "mean", 1e-4)
        env.close([raw(p, "stddev")], [smax(sd, 1)], "deviation", 1e-4)


class Loose:
    """stands in for the validated dataclass while values are symbolic"""

    def __init__(self, feature_type=None, boxcox_lambda=None, boxcox_shift=None, mean=None, stddev=None, possible_values=None, quantiles=None,
                 min_value=None, max_value=None):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})


def raw(p, f):
    return getattr(p, f)


def with_loose(fn):
    import functools
    @functools.wraps(fn)
    def g(env, **kw):
        with env.patch(norm, "NormalizationParameters", Loose):
            return fn(env, **kw)
    return g


for ty in ("CONTINUOUS_ACTION", "DO_NOT_PREPROCESS", "DISCRETE_ACTION"):
    suite.case(bounds="20 samples, 2 of them arbitrary", ty=ty)(with_loose(stats_case))


@suite.case(bounds="20 samples, 3 of them arbitrary in 0..6")
@with_loose
def enum_case(env):
    v = [env.inum(f"v{i}", 0, 6) for i in range(3)]
    vals = [int(x) for x in v] + [2, 4] * 9
    p = norm.identify_parameter("f", np.array(vals, dtype=np.float32), feature_type="ENUM")
    env.check(p.possible_values == sorted(set(vals)) and p.feature_type == "ENUM", "the distinct values in order")
    env.check(env.raises(lambda: norm.identify_parameter("f", np.array(vals[:19], dtype=np.float32), feature_type="ENUM")), "too few samples are refused")


def decide_case(env, skip_box, skip_q):
    """which transform a continuous feature gets, and which samples its statistics describe"""
    v, a = samples(env, 0)
    k2o, k2b = env.num("k2", 0, 4096), env.num("k2boxcox", 0, 4096)
    lam = env.num("lambda", -4, 4)
    boxed = [env.num("c0", 0, 8), env.num("c1", 0, 8)] + v[2:]
    cand = np.array(boxed, dtype=object if env.sym else np.float64)
    calls = []
    fit = []
    def normaltest(x):
        calls.append(x)
        return (k2o, 0.5) if len(calls) == 1 else (k2b, 0.5)
    def boxcox(x):
        fit.append(x)
        return cand, lam
    with fl(env, norm), env.patch(norm.stats, "normaltest", normaltest), env.patch(norm.stats, "boxcox", boxcox):
        p = norm.identify_parameter("f", a, feature_type="CONTINUOUS", skip_box_cox=skip_box, skip_quantiles=skip_q, quantile_k2_threshold=1000.0)
    m, sd = moments(boxed)
    use_box = sand(not skip_box, sor(lam < 0.9, lam > 1.1), k2o > 10 * k2b, k2b <= 1000, sd < 1e8, snot(sabs(sd) <= 1e-8))
    use_q = sand(snot(use_box), k2o > 1000, not skip_q)
    env.eq({"BOXCOX": 0, "QUANTILE": 1, "CONTINUOUS": 2}[p.feature_type], ite(use_box, 0, ite(use_q, 1, 2)), "chosen transform")
    env.close(list(fit[0]), [smax(x - min(v), 1e-4) for x in v], "samples the Box-Cox fit sees", 1e-6)
    if p.feature_type == "BOXCOX":
        env.eq(p.boxcox_lambda, lam, "fitted exponent")
        env.close([p.boxcox_shift], [-min(v)], "shift", 1e-6)
        env.close([p.mean], [m], "mean of the transformed samples", 1e-4)
        env.close([p.stddev], [smax(sd, 1)], "deviation of the transformed samples", 1e-4)
    else:
        env.check(p.boxcox_lambda is None and p.boxcox_shift is None, "no Box-Cox parameters")
    if p.feature_type == "CONTINUOUS":
        m, sd = moments(v)
        env.close([p.mean], [m], "mean", 1e-4)
        env.close([p.stddev], [max(sd, 1)], "deviation", 1e-4)
    if p.feature_type == "QUANTILE":
        q = [float(x) for x in p.quantiles]
        env.check(q == sorted(set(q)) and abs(q[0] - min(v)) < 1e-6 and abs(q[-1] - max(v)) < 1e-6, "increasing quantiles over the sample range")


for sb in (False, True):
    for sq in (False, True):
        suite.case(bounds="20 samples; any normality statistics, any fit", skip_box=sb, skip_q=sq)(with_loose(decide_case))
