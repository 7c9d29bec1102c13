"""Data transforms and batch preprocessors: what a raw batch becomes on its way to a trainer."""
from reagent.parameters import NormalizationData, NormalizationParameters
from reagent.preprocessing import normalization
from reagent.preprocessing.batch_preprocessor import (DiscreteDqnBatchPreprocessor, ParametricDqnBatchPreprocessor,
                                                      PolicyNetworkBatchPreprocessor)
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.preprocessing.sparse_to_dense import PythonSparseToDenseProcessor, StringKeySparseToDenseProcessor
from reagent.preprocessing import transforms as T
from checks.common import *
from checks.D18 import columns, params

suite = Suite("D20", ["feature ids are small integers", "raw values lie in [-1000, 1000]"])


@suite.case(bounds="4 rows, 3 actions, any action or none")
def one_hot_case(env):
    a, b = env.ints("a", 4, lo=0, hi=3), env.ints("b", 2, 2, lo=0, hi=3)
    A, B = env.L(a), env.L(b)
    d = T.Compose(T.OneHotActions(["a"], 3), T.OneHotActions(["b"], 3))({"a": a, "b": b, "c": 5})
    env.eq(d["a"], [[ite(x == j, 1, 0) for j in range(3)] for x in A], "one-hot of an action, zeros for none")
    env.eq(d["b"], [[[ite(x == j, 1, 0) for j in range(3)] for x in r] for r in B], "one-hot of an action, zeros for none")
    env.check(d["c"] == 5, "other keys are left alone")


@suite.case(bounds="2x2 values")
def simple_case(env):
    v, p, w = env.real("v", 2, 2), env.bools("p", 2, 2), env.real("w", 2)
    V, PR, W = env.L(v), env.L(p), env.L(w)
    d = T.ValuePresence()({"x": v, "x_presence": p, "y": w, "z_presence": p})
    env.check(set(d) == {"x", "y", "z_presence"}, "value and presence are paired")
    env.eq(d["x"][0], V, "value of the pair")
    env.eq(d["x"][1], PR, "presence of the pair")
    d = T.MaskByPresence(["x"])(d)
    env.eq(d["x"], [[ite(q, x, 0) for x, q in zip(r, s)] for r, s in zip(V, PR)], "missing values are zeroed")
    d = T.ColumnVector(["y"])(d)
    env.eq(d["y"], [[x] for x in W], "column vector")
    d = T.ColumnVector(["y", "t"])({"y": d["y"], "t": (w, None)})
    env.eq(d["y"], [[x] for x in W], "a column vector stays")
    env.eq(d["t"], [[x] for x in W], "column vector of a value and presence pair")
    env.check(env.raises(lambda: T.ColumnVector(["x"])({"x": v})), "a matrix is refused")
    d = T.Lambda(["x"], lambda t: t * 2)({"x": v, "y": w})
    env.eq(d["x"], [[2 * x for x in r] for r in V], "mapped key")
    env.eq(d["y"], W, "other keys are left alone")
    d = T.StackDenseFixedSizeArray(["x", "l"], 2)({"x": v, "l": [(v[0], p[0]), (v[1], p[1])]})
    env.eq(d["x"], V, "stacked rows")
    env.eq(d["l"], V, "stacked rows")
    env.check(env.raises(lambda: T.StackDenseFixedSizeArray(["x"], 3)({"x": v}), ValueError), "the wrong width is refused")


def slate_case(env, B, S, D):
    """fixed-length sequences become slates of normalized rows"""
    P = {4: params(env, "a", "CONTINUOUS"), 2: params(env, "b", "BINARY")}
    nd = NormalizationData(dense_normalization_parameters={4: NormalizationParameters("CONTINUOUS"), 2: NormalizationParameters("BINARY")})
    object.__setattr__(nd, "dense_normalization_parameters", P)
    v, p = env.real("v", B * S, 2, lo=-1000, hi=1000), env.bools("p", B * S, 2)
    V, PR = env.L(v), env.L(p)
    off = torch.arange(0, B * S, S)
    t = T.FixedLengthSequenceDenseNormalization(["docs"], 7, nd, expected_length=None)
    d = t({"docs": {7: (off, (v, p)), 8: None}})
    want = [[columns(V[b * S + k][0], PR[b * S + k][0], P[2]) + columns(V[b * S + k][1], PR[b * S + k][1], P[4]) for k in range(S)] for b in range(B)]
    got = d["docs:7"]
    env.shape(got, (B, S, 2), "slates")
    for b in range(B):
        for k in range(S):
            env.close(env.L(got)[b][k], want[b][k], "row of a slate", 1e-4)
    d = T.SlateView(["x"], S)({"x": v})
    env.eq(d["x"], [[V[b * S + k] for k in range(S)] for b in range(B)], "unflattened rows")


suite.case(bounds="2 slates of 3", B=2, S=3, D=2)(slate_case)
suite.case(bounds="1 slate of 2", B=1, S=2, D=2)(slate_case)


@suite.case(bounds="3 offsets in 0..6, any length")
def offsets_case(env):
    """only sequences of one fixed length are accepted, and the length is remembered"""
    off = env.ints("o", 3, lo=0, hi=6)
    O, given = env.L(off), env.pick("given", [None, 2, 3])
    env.assume(O[1] > O[0])
    val = torch.zeros(8, 1)
    t = T.FixedLengthSequences(["k"], 1, given, to_keys=["out"])
    bad = env.raises(lambda: t({"k": {1: (off, val)}}))
    n = O[1] - O[0] if given is None else given
    fits = sand(O[0] == 0, O[1] == n, O[2] == 2 * n)
    env.check(sor(sand(bad, snot(fits)), sand(not bad, fits)), "accepted exactly when the offsets are evenly spaced from zero")
    if not bad:
        off2 = env.ints("p", 2, lo=0, hi=6)
        P = env.L(off2)
        d = {"k": {1: (off2, val)}}
        bad2 = env.raises(lambda: t(d))
        env.check(sor(sand(bad2, snot(sand(P[0] == 0, P[1] == n))), sand(not bad2, P[0] == 0, P[1] == n)), "later batches keep the first length")
        if not bad2:
            env.check(d["out"] is val and "k" in d, "values go to the target key")


@suite.case(bounds="3 ids of 3, 2 lists, known and unknown features")
def id_list_case(env):
    ids = [30, 10, 20]
    cfg = rlt.ModelFeatureConfig(id_mapping_config={"t": rlt.IdMapping(ids=ids), "u": rlt.IdMapping(ids=[10, 20, 30, 40])},
                                 id_list_feature_configs=[rlt.IdListFeatureConfig(name="a", feature_id=1, id_mapping_name="t")],
                                 id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name="b", feature_id=2, id_mapping_name="u")])
    m = T.MapIDListFeatures(["L"], ["S"], cfg, torch.device("cpu"))
    k, s = env.ints("k", 3, lo=0, hi=2), env.ints("s", 2, lo=0, hi=2)
    K, SK, w = [int(x) for x in env.L(k)], [int(x) for x in env.L(s)], env.real("w", 2)
    off = torch.tensor([0, 1])
    d = m({"L": {1: (off, torch.tensor([ids[i] for i in K])), 9: (off, torch.tensor([5]))},
           "S": {2: (off, torch.tensor([ids[i] for i in SK]), w)}, "other": 1})
    env.check(list(d["L"]) == ["a"] and list(d["S"]) == ["b"] and d["other"] == 1, "features are named, unknown ones dropped")
    env.eq(d["L"]["a"][0], [0, 1], "offsets")
    env.eq(d["L"]["a"][1], K, "ids become table rows")
    env.eq(d["S"]["b"][1], [{30: 2, 10: 0, 20: 1}[ids[i]] for i in SK], "ids become table rows")
    env.eq(d["S"]["b"][2], w, "scores are kept")
    env.check(m({"S": {}})["L"] is None, "an absent key becomes None")
    env.check(env.raises(lambda: m({"L": 3, "S": {}})), "a key of another kind is refused")


def dense_case(env, proc, zero, B=2):
    """sparse dictionaries become rows in feature order; what is missing is marked (or zero)"""
    feats = [5, 2, 8]
    X = [[env.num(f"x{b}{f}", -1000, 1000) for f in feats] for b in range(B)]
    H = [[bool(env.flag(f"h{b}{f}")) for f in feats] for b in range(B)]
    key = str if proc is StringKeySparseToDenseProcessor else int
    rows = [dict([(key(f), x) for f, x, h in zip(feats, r, hs) if h] + [(key(77), 1.0)]) for r, hs in zip(X, H)]
    from_numpy = torch.from_numpy
    with env.patch(torch, "from_numpy", lambda a: env.mk([[unwrap(v) for v in r] for r in a.tolist()]) if env.sym else from_numpy(a)):
        v, p = proc(feats, zero)(rows)
    miss = 0 if zero else normalization.MISSING_VALUE
    env.close([x for r in env.L(v) for x in r], [x if h else miss for r, hs in zip(X, H) for x, h in zip(r, hs)], "values in feature order", 1e-4)
    env.eq(p, [[zero or h for h in hs] for hs in H], "presence")


for zero in (False, True):
    suite.case(bounds="2 rows, 3 features, any presence", proc=PythonSparseToDenseProcessor, zero=zero)(dense_case)
suite.case(bounds="2 rows, 3 features, any presence, string keys", proc=StringKeySparseToDenseProcessor, zero=False)(dense_case)


def batch_case(env, kind, B=2, A=3):
    SP, AP = {3: params(env, "s", "CONTINUOUS")}, {6: params(env, "a", "CONTINUOUS_ACTION")}
    sp, ap = Preprocessor(SP, device=torch.device("cpu")), Preprocessor(AP, device=torch.device("cpu"))
    r = lambda n, *sh: env.real(n, *sh, lo=-1000, hi=1000)
    x = {"state_features": r("s", B, 1), "next_state_features": r("ns", B, 1), "state_features_presence": env.bools("sp", B, 1),
         "next_state_features_presence": env.bools("nsp", B, 1), "reward": r("r", B), "time_diff": r("td", B), "step": env.ints("st", B, lo=1, hi=5),
         "mdp_id": torch.arange(B), "sequence_number": env.ints("sn", B, lo=0, hi=9), "action_probability": env.real("ap", B, lo=0, hi=1),
         "possible_actions_mask": env.mask("pam", B, A), "possible_next_actions_mask": env.mask("pnam", B, A)}
    if kind == "discrete":
        x.update(action=env.ints("a", B, lo=0, hi=A - 1), next_action=env.ints("na", B, lo=0, hi=A))
        pre = DiscreteDqnBatchPreprocessor(A, sp, use_gpu=False)
    else:
        x.update(action=r("a", B, 1), next_action=r("na", B, 1), action_presence=env.bools("acp", B, 1), next_action_presence=env.bools("nacp", B, 1),
                 not_terminal=env.mask("nt", B), possible_actions=r("pa", B * A, 1), possible_next_actions=r("pna", B * A, 1))
        pre = (ParametricDqnBatchPreprocessor if kind == "parametric" else PolicyNetworkBatchPreprocessor)(sp, ap, use_gpu=False)
    X = {k: env.L(v) for k, v in x.items()}
    out = pre(x)
    norm = lambda k, p, P: [columns(v[0], h[0], P) for v, h in zip(X[k], X[p])]
    def same(t, want, label):
        for a, b in zip(env.L(t), want):
            env.close(a, b, label, 1e-4)
    same(out.state.float_features, norm("state_features", "state_features_presence", SP[3]), "normalized state")
    same(out.next_state.float_features, norm("next_state_features", "next_state_features_presence", SP[3]), "normalized next state")
    for f in ("reward", "time_diff", "step"):
        env.eq(getattr(out, f), [[v] for v in X[f]], f)
    for f in ("mdp_id", "sequence_number", "action_probability"):
        env.eq(getattr(out.extras, f), [[v] for v in X[f]], f)
    if kind == "discrete":
        env.eq(out.action, [[ite(a == j, 1, 0) for j in range(A)] for a in X["action"]], "one-hot action")
        env.eq(out.next_action, [[ite(a == j, 1, 0) for j in range(A)] for a in X["next_action"]], "one-hot next action, zeros when there is none")
        env.eq(out.not_terminal, [[ite(sor(*[m == 1 for m in row]), 1, 0)] for row in X["possible_next_actions_mask"]], "terminal when no action is possible next")
    else:
        same(out.action.float_features, norm("action", "action_presence", AP[6]), "normalized action")
        same(out.next_action.float_features, norm("next_action", "next_action_presence", AP[6]), "normalized next action")
        env.eq(out.not_terminal, [[v] for v in X["not_terminal"]], "not_terminal")
    if kind != "policy":
        env.eq(out.possible_actions_mask, X["possible_actions_mask"], "possible actions")
        env.eq(out.possible_next_actions_mask, X["possible_next_actions_mask"], "possible next actions")
    if kind == "parametric":
        env.eq(out.possible_next_actions, X["possible_next_actions"], "possible next actions")


for kind in ("discrete", "parametric", "policy"):
    suite.case(bounds="2 transitions, 3 actions, 1 state feature", kind=kind)(batch_case)
