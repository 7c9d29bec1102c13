"""Serving modules: what a published model answers for raw features, and the policies built on it."""
import contextlib
import itertools
import sys
import types
import numpy as np
import torch.nn as nn
from reagent.gym.policies import predictor_policies as pp
from reagent.gym.policies.samplers.discrete_sampler import GreedyActionSampler, SoftmaxActionSampler
from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.models import EmbeddingBagConcat
from reagent.models.base import ModelBase
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.net_builder import (categorical_dqn_net_builder, continuous_actor_net_builder, discrete_actor_net_builder, discrete_dqn_net_builder,
                                 parametric_dqn_net_builder, quantile_dqn_net_builder)
from reagent.net_builder.categorical_dqn.categorical import Categorical
from reagent.net_builder.continuous_actor.gaussian_fully_connected import GaussianFullyConnected
from reagent.net_builder.discrete_actor.fully_connected import FullyConnected as DiscreteActor
from reagent.net_builder.discrete_dqn.fully_connected import FullyConnected as DiscreteDQN
from reagent.net_builder.parametric_dqn.fully_connected import FullyConnected as ParametricDQN
from reagent.net_builder.quantile_dqn.quantile import Quantile
from reagent.parameters import NormalizationData, NormalizationParameters, RLParameters
from reagent.prediction import predictor_wrapper as pw_real
from reagent.prediction.ranking import predictor_wrapper as dpp_real
from reagent.preprocessing import sparse_preprocessor as sp_real
from reagent.preprocessing.normalization import EPS
from reagent.preprocessing.postprocessor import Postprocessor
from reagent.preprocessing.preprocessor import Preprocessor
from checks.common import *
from checks.D18 import columns, ORDER
from checks.D31 import Seq, best_values

suite = Suite("D35", ["TorchScript compilation and tracing preserve the meaning of the modules they are given (the same source runs uncompiled here)",
                      "raw features lie in [-20, 20], networks answer in [-8, 8]"])


def traced(m, proto=None, **kw):
    """what tracing does to a module: it is called once on the prototype, and answers as before"""
    if proto is not None:
        with torch.no_grad():
            m(*proto)
    return m


@contextlib.contextmanager
def eager(env):
    """the serving code of the current tree, run without compiling it"""
    with contextlib.ExitStack() as st:
        jit = dict(script=lambda f, *a, **k: f, script_method=lambda f: f, export=lambda f: f, Attribute=lambda v, t: v, trace=traced)
        for k, v in jit.items():
            st.enter_context(env.patch(torch.jit, k, v))
        made = {}
        with env.patch(torch.jit, "ScriptModule", nn.Module):
            for real in (sp_real, pw_real, dpp_real):
                m = types.ModuleType(real.__name__ + "_eager")
                m.__file__ = real.__file__
                sys.modules.setdefault(m.__name__, m)
                exec(compile(open(real.__file__).read(), real.__file__, "exec"), m.__dict__)
                made[real] = m
        pw = made[pw_real]
        pw.make_sparse_preprocessor, pw.SparsePreprocessor = made[sp_real].make_sparse_preprocessor, made[sp_real].SparsePreprocessor
        yield types.SimpleNamespace(pw=pw, sp=made[sp_real], dpp=made[dpp_real])


def norm(*ids):
    """a scaled feature, an enumerated one, a pass-through one"""
    kinds = [NormalizationParameters(feature_type="CONTINUOUS", mean=1.0, stddev=2.0),
             NormalizationParameters(feature_type="ENUM", possible_values=[5, 2]),
             NormalizationParameters(feature_type="DO_NOT_PREPROCESS")]
    return dict(zip(ids, kinds))


def prep_of(P):
    return Preprocessor(P, device=torch.device("cpu"))


def order(P):
    return [f for ty in ORDER for f in sorted(P) if P[f].feature_type == ty]


def raw(env, name, P, *lead):
    v, h = env.real(name, *lead, len(P), lo=-20, hi=20), env.bools(name + ".present", *lead, len(P))
    return v, h


def cooked(env, P, x, h):
    """columns of one raw row"""
    return [c for f, v, p in zip(order(P), x, h) for c in columns(v, p, P[f])]


def width(P):
    return sum(len(p.possible_values or [0]) for p in P.values())


class Model(ModelBase):
    """an arbitrary function of each row; copies answer alike; remembers who asked what"""

    def __init__(self, env, name, out, proto=None, post=None, bound=(-8, 8)):
        super().__init__()
        self.env, self.name_, self.proto, self.post, self.copies, self.seen = env, name, proto, post, [], []
        self.net, self.bound, self.out = env.net(name, out, bound=bound), bound, out
        self.modes = []

    def __deepcopy__(self, memo):
        c = Model(self.env, self.name_, self.out, self.proto, self.post, self.bound)
        c.train(self.training)
        self.copies.append(c)
        return c

    def input_prototype(self):
        return self.proto

    def forward(self, *args, **kw):
        self.seen.append((args, kw))
        self.modes.append(self.training)
        r = self.net(*args, **kw)
        return self.post(r) if self.post else r


def answer(env, name, row, n, lo=-8, hi=8):
    return [wrap(v) for v in env.net_eval(name, [unwrap(x) if env.sym else x for x in row], n, lo, hi)]


def sparse_config(rows=(3, 2)):
    return rlt.ModelFeatureConfig(
        float_feature_infos=[rlt.FloatFeatureInfo(name="f0", feature_id=0)],
        id_mapping_config={"pages": rlt.IdMapping(ids=[70, 10, 40][:rows[0]]), "shops": rlt.IdMapping(ids=[9, 3][:rows[1]])},
        id_list_feature_configs=[rlt.IdListFeatureConfig(name="visited", feature_id=11, id_mapping_name="pages"), rlt.IdListFeatureConfig(name="bought", feature_id=5, id_mapping_name="shops")],
        id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name="liked", feature_id=8, id_mapping_name="pages")])


def sparse_case(env, lens, score_lens):
    """lists of ids reach the model under their feature names, as positions in the table each feature uses; features nobody asked for are dropped"""
    cfg = sparse_config()
    tables = {"pages": [70, 10, 40], "shops": [9, 3]}
    use = {11: ("visited", "pages"), 5: ("bought", "shops"), 8: ("liked", "pages")}
    for fid, (name, tab) in use.items():
        env.check(cfg.id2name[fid] == name and cfg.name2id[name] == fid and cfg.id2config[fid].name == name and cfg.name2config[name].feature_id == fid, "names and ids")
    for tab, ids in tables.items():
        env.check(cfg.id_mapping_config[tab].id2index == {v: i for i, v in enumerate(ids)} and cfg.id_mapping_config[tab].table_size == len(ids), "positions in the table")
    env.check(not cfg.only_dense and rlt.ModelFeatureConfig().only_dense, "whether there are lists at all")
    offs = lambda ls: torch.tensor([sum(ls[:i]) for i in range(len(ls))])
    at = {}

    def ids(fid, n):
        i = env.ints(f"ix{fid}", n, lo=0, hi=len(tables[use[fid][1]]) - 1)
        at[fid] = env.L(i)
        return torch.tensor([pick_at(tables[use[fid][1]], k) for k in at[fid]], dtype=torch.int64) if n else torch.zeros(0, dtype=torch.int64)
    with eager(env) as m:
        p = m.sp.make_sparse_preprocessor(cfg, torch.device("cpu"))
        n, k = sum(lens), sum(score_lens)
        lists = {99: (offs([1]), torch.tensor([123])), 11: (offs(lens), ids(11, n)), 5: (offs(lens), ids(5, n))}
        got = p.preprocess_id_list(lists)
        env.check(set(got) == {"visited", "bought"}, "features asked for")
        for fid, name in ((11, "visited"), (5, "bought")):
            env.eq(got[name][0], env.L(offs(lens)), "where each example's list starts")
            env.check(got[name][1].dtype == torch.int64, "kind of the positions")
            env.shape(got[name][1], (n,), "positions")
            env.eq(got[name][1], at[fid], "position of each id in its table")
        w = env.real("w", k, lo=-4, hi=4)
        got = p.preprocess_id_score_list({8: (offs(score_lens), ids(8, k), w), 77: (offs([1]), torch.tensor([5]), torch.ones(1))})
        env.check(set(got) == {"liked"}, "features asked for")
        env.eq(got["liked"][0], env.L(offs(score_lens)), "where each example's list starts")
        env.eq(got["liked"][1], at[8], "position of each key in its table")
        env.eq(got["liked"][2], env.L(w), "scores")


suite.case(bounds="2 examples with 1 and 1 ids, 0 and 1 scores", lens=[1, 1], score_lens=[0, 1])(sparse_case)
suite.case(bounds="2 examples with 2 and 0 ids, 1 score", lens=[2, 0], score_lens=[1])(sparse_case)
suite.case(tier="thorough", bounds="3 examples with 0, 1, 1 ids, 1 and 1 scores", lens=[0, 1, 1], score_lens=[1, 1])(sparse_case)


def bag_case(env, lens, score_lens, D):
    """each list is summed over its embeddings (weighted by score), example by example, and set beside the dense features"""
    B = len(lens)
    cfg = sparse_config()
    net = EmbeddingBagConcat(state_dim=2, model_feature_config=cfg, embedding_dim=D)
    env.check(net.output_dim == 2 + 3 * D, "output width")
    tab = {}
    for t, n in (("pages", 3), ("shops", 2)):
        env.check(tuple(net.embedding_bags[t].weight.shape) == (n, D), "one embedding per id")
        w = env.real("emb." + t, n, D, lo=-4, hi=4)
        tab[t] = env.L(w)
        net.embedding_bags[t].weight = nn.Parameter(w)
    x = env.real("x", B, 2)
    offs = lambda ls: torch.tensor([sum(ls[:i]) for i in range(len(ls))])
    ix = {n: env.ints("ix." + n, k, lo=0, hi=len(tab[t]) - 1) for n, t, k in (("visited", "pages", sum(lens)), ("bought", "shops", sum(lens[::-1])), ("liked", "pages", sum(score_lens)))}
    w = env.real("w", sum(score_lens), lo=-4, hi=4)
    got = net(rlt.FeatureData(x, id_list_features={"visited": (offs(lens), ix["visited"]), "bought": (offs(lens[::-1]), ix["bought"])},
                              id_score_list_features={"liked": (offs(score_lens), ix["liked"], w)}))
    env.shape(got, (B, 2 + 3 * D), "output")
    for b in range(B):
        want = []
        for n, t, ls, ws in (("visited", "pages", lens, None), ("bought", "shops", lens[::-1], None), ("liked", "pages", score_lens, env.L(w))):
            s = sum(ls[:b])
            for d in range(D):
                want.append(ssum((1 if ws is None else ws[k]) * pick_at([r[d] for r in tab[t]], env.L(ix[n])[k]) for k in range(s, s + ls[b])))
        env.eq(got[b], want + env.L(x)[b], "sums beside the dense features", 1e-4)


suite.case(bounds="2 examples with lists of 2 and 0, 0 and 2, 1 and 1", lens=[2, 0], score_lens=[1, 1], D=2)(bag_case)
suite.case(bounds="2 examples with lists of 1 and 2, 2 and 1, 0 and 2", lens=[1, 2], score_lens=[0, 2], D=1)(bag_case)
suite.case(tier="thorough", bounds="3 examples, longer lists", lens=[2, 1, 2], score_lens=[1, 0, 2], D=2)(bag_case)


class Lists(Model):
    """keeps the lists apart from the dense features"""

    def forward(self, s):
        self.lists = (s.id_list_features, s.id_score_list_features)
        return super().forward(s.float_features)


def dqn_case(env, B, A):
    """the served value of raw features is the network's value of the preprocessed ones, with its action names"""
    P, cfg = norm(4, 9), sparse_config()
    with eager(env) as m:
        net = Lists(env, "q", A, proto=rlt.FeatureData(torch.zeros(1, 3)))
        inner = m.pw.DiscreteDqnWithPreprocessor(net, prep_of(P), cfg)
        served = m.pw.OSSSparsePredictorUnwrapper(m.pw.DiscreteDqnPredictorWrapper(inner, [f"a{i}" for i in range(A)], cfg))
        v, h = raw(env, "s", P, B)
        i = env.ints("i", B, lo=0, hi=2)
        ids = torch.tensor([pick_at([70, 10, 40], k) for k in env.L(i)])
        names, q = served((v, h), {11: (torch.arange(B), ids), 55: (torch.arange(B), ids)}, {8: (torch.arange(B), ids, torch.arange(B).float())})
        env.check(names == [f"a{i}" for i in range(A)], "action names")
        env.shape(q, (B, A), "values")
        for b in range(B):
            env.eq(q[b], answer(env, "q", cooked(env, P, env.L(v)[b], env.L(h)[b]), A), "values of the preprocessed state")
        env.check(set(net.lists[0]) == {"visited"} and set(net.lists[1]) == {"liked"}, "lists reach the network")
        env.eq(net.lists[0]["visited"][1], env.L(i), "positions of the ids")
        env.eq(net.lists[1]["liked"][1], env.L(i), "positions of the keys")
        env.eq(net.lists[1]["liked"][2], list(range(B)), "scores")
        # a dense network that takes the tensor itself
        plain = Model(env, "q", A)
        got = m.pw.CompressModelWithPreprocessor(plain, prep_of(P), rlt.ModelFeatureConfig())(rlt.ServingFeatureData((v, h), {}, {}))
        env.check(isinstance(plain.seen[0][0][0], torch.Tensor), "the network takes a tensor")
        for b in range(B):
            env.eq(got[b], answer(env, "q", cooked(env, P, env.L(v)[b], env.L(h)[b]), A), "values of the preprocessed state")


suite.case(bounds="2 states of 2 features and 2 lists, 2 actions", B=2, A=2)(dqn_case)
suite.case(bounds="1 state, 3 actions", B=1, A=3)(dqn_case)


def parametric_case(env, B):
    PS, PA = norm(4, 9), norm(2)
    with eager(env) as m:
        net = Model(env, "q", 1)
        served = m.pw.OSSPredictorUnwrapper(m.pw.ParametricDqnPredictorWrapper(m.pw.ParametricDqnWithPreprocessor(net, prep_of(PS), prep_of(PA))))
        s, a = raw(env, "s", PS, B), raw(env, "a", PA, B)
        names, q = served(s, a)
        env.check(names == ["Q"], "name of the value")
        for b in range(B):
            env.eq(q[b], answer(env, "q", cooked(env, PS, env.L(s[0])[b], env.L(s[1])[b]) + cooked(env, PA, env.L(a[0])[b], env.L(a[1])[b]), 1), "value of the preprocessed state and action")


suite.case(bounds="2 states and actions", B=2)(parametric_case)


def action_norm(lo, hi):
    return {1: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=lo, max_value=hi)}


def out_of(env, a, lo, hi):
    """serving range of a trained action"""
    lim = 1 - EPS
    return lo + (clamp(a, -lim, lim) + lim) * (hi - lo) / (2 * lim)


def actor_case(env, B, post, mean):
    """the served action is the policy's (or its mean), scaled back to the environment's range"""
    P = norm(4, 9)
    with eager(env) as m:
        net = Model(env, "pi", 2, bound=(-1, 1), post=lambda r: rlt.ActorOutput(action=r[:, :1], squashed_mean=r[:, 1:], log_prob=r[:, :1]))
        inner = m.pw.ActorWithPreprocessor(net, prep_of(P), Postprocessor(action_norm(-3.0, 5.0), False) if post else None, serve_mean_policy=mean)
        s = raw(env, "s", P, B)
        got = m.pw.OSSPredictorUnwrapper(m.pw.ActorPredictorWrapper(inner))(s)
        env.shape(got, (B, 1), "actions")
        for b in range(B):
            a = answer(env, "pi", cooked(env, P, env.L(s[0])[b], env.L(s[1])[b]), 2, -1, 1)[1 if mean else 0]
            env.close([got[b][0].item()], [out_of(env, a, -3, 5) if post else a], "served action", 1e-3)
        bare = Model(env, "bare", 1, post=lambda r: rlt.ActorOutput(action=r))
        mk = m.pw.ActorWithPreprocessor(bare, prep_of(P), None, serve_mean_policy=True)
        env.check(env.raises(lambda: mk(s)), "a policy without a mean cannot serve it")


for post, mean in itertools.product((False, True), repeat=2):
    suite.case(bounds="2 states", B=2, post=post, mean=mean)(actor_case)


def ranking_case(env, B, C):
    """the ranking actor sees the state beside all candidates, candidate by candidate; another number of candidates is refused"""
    PS, PC = norm(4), norm(3, 6)
    with eager(env) as m:
        net = Model(env, "pi", 1, bound=(-1, 1), post=lambda r: rlt.ActorOutput(action=r))
        inner = m.pw.RankingActorWithPreprocessor(net, prep_of(PS), prep_of(PC), C, Postprocessor(action_norm(0.0, 4.0), False))
        served = m.pw.RankingActorPredictorWrapper(inner, [1])
        s = raw(env, "s", PS, B)
        cs = [raw(env, f"c{i}", PC, B) for i in range(C)]
        got = served(s, cs)
        x = net.seen[-1][0][0]
        for b in range(B):
            row = cooked(env, PS, env.L(s[0])[b], env.L(s[1])[b])
            for v, h in cs:
                row += cooked(env, PC, env.L(v)[b], env.L(h)[b])
            env.eq(x.float_features[b], row, "state, then candidates in order")
            env.close([got[b][0].item()], [out_of(env, answer(env, "pi", row, 1, -1, 1)[0], 0, 4)], "served action", 1e-3)
        env.check(env.raises(lambda: inner(s, cs + cs[:1])) and env.raises(lambda: inner(s, cs[1:])), "the number of candidates is fixed")


suite.case(bounds="2 states, 2 candidates", B=2, C=2)(ranking_case)
suite.case(bounds="1 state, 3 candidates", B=1, C=3)(ranking_case)


class Rows(nn.Module):
    """scores each candidate from the state and its own features"""

    def __init__(self, env):
        super().__init__()
        self.env, self.seen = env, []

    def forward(self, x):
        self.seen.append(x)
        d = x.candidate_docs.float_features
        B, C, _ = d.shape
        s, d = self.env.L(x.float_features), self.env.L(d)
        return self.env.mk([self.env.net_eval("m", [unwrap(v) if self.env.sym else v for v in s[b] + d[b][c]], 1, -8, 8) for b in range(B) for c in range(C)])


def slate_parts_case(env, B, C):
    """candidates are preprocessed one by one and stay with their list; scores come back list by list"""
    PS, PC = norm(4), norm(3, 6)
    s, c = raw(env, "s", PS, B), raw(env, "c", PC, B, C)
    S0 = [cooked(env, PS, x, h) for x, h in zip(env.L(s[0]), env.L(s[1]))]
    C0 = [[cooked(env, PC, x, h) for x, h in zip(xs, hs)] for xs, hs in zip(env.L(c[0]), env.L(c[1]))]
    with eager(env) as m:
        got = m.pw.LearnVMSlateWithPreprocessor(Rows(env), prep_of(PS), prep_of(PC))(s, c)
        env.shape(got, (B, C), "scores")
        env.eq(got, [[answer(env, "m", S0[b] + C0[b][i], 1)[0] for i in range(C)] for b in range(B)], "score of each candidate")
        ps, pc = m.pw.SlateRankingPreprocessor(prep_of(PS), prep_of(PC))(s, c)
        env.eq(ps, S0, "states")
        env.shape(pc, (B, C, 3), "candidates")
        env.eq(pc, C0, "candidates")


suite.case(bounds="2 lists of 2 candidates", B=2, C=2)(slate_parts_case)
suite.case(bounds="1 list of 3 candidates", B=1, C=3)(slate_parts_case)


class Ranker(nn.Module):
    """a decoder: remembers what it was asked, answers arbitrarily"""

    def __init__(self, out):
        super().__init__()
        self.out, self.seen = out, []

    def forward(self, **kw):
        self.seen.append(kw)
        return self.out


def seq2slate_case(env, B, C, greedy):
    """the served ranking is the decoder's over all candidates, counted from zero, with the probability of the whole ranking"""
    PS, PC = norm(4), norm(3, 6)
    s, c = raw(env, "s", PS, B), raw(env, "c", PC, B, C)
    idx, pr, each = env.ints("idx", B, C, lo=2, hi=C + 1), env.real("pr", B, 1, lo=0, hi=1), env.real("each", B, C, C + 2, lo=0, hi=1)
    I0, P0 = env.L(idx), env.L(pr)
    with eager(env) as m:
        r = Ranker(types.SimpleNamespace(ranked_per_symbol_probs=each, ranked_per_seq_probs=pr, ranked_tgt_out_idx=idx))
        inner = m.pw.Seq2SlateWithPreprocessor(types.SimpleNamespace(seq2slate=r), prep_of(PS), prep_of(PC), greedy)
        env.check(list(inner.state_sorted_features) == order(PS) and list(inner.candidate_sorted_features) == order(PC), "order of the features")
        env.check(inner.candidate_feature_id_to_index == {f: i for i, f in enumerate(order(PC))} and inner.state_feature_id_to_index == {4: 0}, "where each feature goes")
        r.seen.clear()
        probs, rank = m.pw.Seq2SlatePredictorWrapper(inner)(s, c)
        kw = r.seen[-1]
        env.check(kw["mode"] == Seq2SlateMode.RANK_MODE.value and kw["greedy"] is greedy and kw["tgt_seq_len"] == C and len(r.seen) == 1, "one ranking over all candidates")
        env.eq(kw["state"], [cooked(env, PS, x, h) for x, h in zip(env.L(s[0]), env.L(s[1]))], "states")
        env.eq(kw["src_seq"], [[cooked(env, PC, x, h) for x, h in zip(xs, hs)] for xs, hs in zip(env.L(c[0]), env.L(c[1]))], "candidates")
        env.eq(probs, P0, "probability of the whole ranking")
        env.eq(rank, [[i - 2 for i in row] for row in I0], "candidates counted from zero")


for g in (True, False):
    suite.case(bounds="2 lists of 3 candidates", B=2, C=3, greedy=g)(seq2slate_case)


def slate_reward_case(env, B, C, T):
    """the predicted reward is that of showing the first candidates in order"""
    PS, PC = norm(4), norm(3, 6)
    s, c = raw(env, "s", PS, B), raw(env, "c", PC, B, C)
    val = env.real("val", B, 1)
    seen = []

    class Net(nn.Module):
        max_src_seq_len, max_tgt_seq_len = C, T

        def forward(self, x):
            seen.append(x)
            return types.SimpleNamespace(predicted_reward=val)
    with eager(env) as m:
        got = m.pw.Seq2SlateRewardWithPreprocessor(Net(), prep_of(PS), prep_of(PC))(s, c)
    x = seen[0]
    C0 = [[cooked(env, PC, r, h) for r, h in zip(xs, hs)] for xs, hs in zip(env.L(c[0]), env.L(c[1]))]
    env.eq(got, env.L(val), "predicted reward")
    env.eq(x.state.float_features, [cooked(env, PS, r, h) for r, h in zip(env.L(s[0]), env.L(s[1]))], "states")
    env.eq(x.src_seq.float_features, C0, "candidates")
    env.eq(x.tgt_out_seq.float_features, [r[:T] for r in C0], "the first candidates are shown")
    env.eq(x.tgt_out_idx, [[i + 2 for i in range(T)]] * B, "their places")
    env.eq(x.src_src_mask, [[[1] * C] * C] * B, "every candidate sees every other")


suite.case(bounds="2 lists of 3 candidates, 2 shown", B=2, C=3, T=2)(slate_reward_case)


class Steps(nn.Module):
    def __init__(self, env, n):
        super().__init__()
        self.env, self.n = env, n

    def forward(self, x):
        return self.env.mk([self.env.net_eval("steps", row, self.n, -3, 3) for row in self.env.rows(x)])


def plan_case(env, B, n, steps, mixed):
    """the served value of an action is that of the best plan starting with it; over plans of several lengths, weighted by how likely each length is"""
    P = norm(4)
    with eager(env) as m:
        net = Seq(env, 1)
        s = raw(env, "s", P, B)
        if mixed:
            inner = m.pw.Seq2RewardPlanShortSeqWithPreprocessor(net, Steps(env, steps), prep_of(P), steps, n)
        else:
            inner = m.pw.Seq2RewardWithPreprocessor(net, prep_of(P), steps, n)
        got = inner(rlt.ServingFeatureData(s, {}, {}))
    env.shape(got, (B, n), "values")
    for b in range(B):
        x = cooked(env, P, env.L(s[0])[b], env.L(s[1])[b])
        if mixed:
            w = [sexp(v) for v in answer(env, "steps", x, steps, -3, 3)]
            Z = ssum(w)
            best = [best_values(net, x, n, k + 1) for k in range(steps)]
            env.eq(got[b], [ssum(w[k] / Z * best[k][a] for k in range(steps)) for a in range(n)], "expected value over the plan lengths", 1e-3)
        else:
            env.eq(got[b], best_values(net, x, n, steps), "value of the best plan")


suite.case(bounds="2 states, 2 actions, plans of 2 steps", B=2, n=2, steps=2, mixed=False)(plan_case)
suite.case(bounds="1 state, 3 actions, plans of 2 steps", B=1, n=3, steps=2, mixed=False)(plan_case)
suite.case(bounds="2 states, 2 actions, plans of 1 and 2 steps", B=2, n=2, steps=2, mixed=True)(plan_case)
suite.case(bounds="1 state, 3 actions, plans of 1 and 2 steps", B=1, n=3, steps=2, mixed=True)(plan_case)
suite.case(tier="thorough", bounds="1 state, 2 actions, plans of 1, 2 and 3 steps", B=1, n=2, steps=3, mixed=True)(plan_case)


def world_case(env, B, L, A):
    """a world model's states are handed over step by step, each feature preprocessed"""
    P = norm(4) if L == 1 else norm(4, 7, 9)
    seen = []

    class Net(nn.Module):
        def forward(self, action, state):
            seen.append((action, state))
            return "answer"
    with eager(env) as m:
        inner = m.pw.MDNRNNWithPreprocessor(Net(), prep_of(P), L, A)
        v, h = raw(env, "s", P, B)
        ac = env.real("a", L, B, A)
        got = inner((v, h), ac)
    env.check(got == "answer" and seen[0][0] is ac, "the model's own answer to these actions")
    w = width(P) // L
    env.shape(seen[0][1], (L, B, w), "states")
    env.eq(seen[0][1], [[cooked(env, P, env.L(v)[b], env.L(h)[b])[k * w:(k + 1) * w] for b in range(B)] for k in range(L)], "states, step by step")


suite.case(bounds="2 examples, 1 step", B=2, L=1, A=2)(world_case)
suite.case(bounds="3 examples, 2 steps", B=3, L=2, A=2)(world_case)


def det(M):
    if not M:
        return 1
    r = 0
    for j, x in enumerate(M[0]):
        t = x * det([row[:j] + row[j + 1:] for row in M[1:]])
        r = r + t if j % 2 == 0 else r - t
    return r


def dpp_case(env, n, alpha, feats):
    """items are chosen one at a time, each time the one that makes the determinant over the chosen ones largest"""
    q = env.real("q", n, 1, lo=0.25, hi=4)
    f = env.const(feats)
    with eager(env) as m:
        chosen, dets, L, Bm = m.dpp.DeterminantalPointProcessPredictorWrapper(alpha)(q, f)
    Q = [r[0] for r in env.L(q)]
    unit = []
    for r in feats:
        z = sum(v * v for v in r) ** 0.5
        unit.append([v / z for v in r])
    root = alpha ** 0.5
    for i in range(n):
        env.close(env.L(Bm)[i], [root * Q[i] * v for v in unit[i]], "scaled features", 1e-4)
    want = [[Q[i] * Q[i] if i == j else alpha * Q[i] * Q[j] * sum(a * b for a, b in zip(unit[i], unit[j])) for j in range(n)] for i in range(n)]
    for i in range(n):
        env.close(env.L(L)[i], want[i], "similarity of quality and features", 1e-4)
    K = env.L(L)
    got = [int(c) for c in env.L(chosen)]
    env.check(sorted(got) == list(range(n)), "every item is placed once")
    D = env.L(dets)
    for k in range(n):
        for i in range(n):
            if i in got[:k]:
                env.le(D[k][i], -3e38, "an item is not chosen twice")
            else:
                at = got[:k] + [i]
                d = det([[K[r][c] for c in at] for r in at])
                env.eq(D[k][i], d, "determinant with the item added", 1e-3)
                env.le(D[k][i], D[k][got[k]], "the best item is chosen")


suite.case(bounds="2 items", n=2, alpha=0.25, feats=[[1.0, 0.0], [3.0, 4.0]])(dpp_case)
suite.case(bounds="3 items", n=3, alpha=1.0, feats=[[1.0, 0.0], [3.0, 4.0], [0.0, 2.0]])(dpp_case)
suite.case(bounds="3 items, two negative similarities and their product's sign", n=3, alpha=0.25, feats=[[1.0, 0.0], [-3.0, 4.0], [-4.0, -3.0]])(dpp_case)
suite.case(tier="thorough", bounds="3 items, negative similarity", n=3, alpha=0.25, feats=[[-3.0, 4.0], [3.0, 4.0], [1.0, 0.0]])(dpp_case)


KINDS = {
    "dqn": (discrete_dqn_net_builder, DiscreteDQN, 2), "c51": (categorical_dqn_net_builder, Categorical, 2), "qr": (quantile_dqn_net_builder, Quantile, (2, 3)),
    "parametric": (parametric_dqn_net_builder, ParametricDQN, 1), "continuous": (continuous_actor_net_builder, GaussianFullyConnected, 2),
    "ranking": (continuous_actor_net_builder, GaussianFullyConnected, 1), "discrete": (discrete_actor_net_builder, DiscreteActor, 2)}


def publish_case(env, kind, B=2, mean=False):
    """publishing a network copies it: the copy answers in evaluation mode, the network goes on training untouched; features are scaled as declared"""
    mod, builder, out = KINDS[kind]
    P, PA = norm(4, 9), action_norm(-3.0, 5.0)
    data = lambda p: NormalizationData(dense_normalization_parameters=p)
    with eager(env) as m, contextlib.ExitStack() as st:
        for k in dir(mod):
            if hasattr(m.pw, k) and (k.endswith("Wrapper") or k.endswith("WithPreprocessor")):
                st.enter_context(env.patch(mod, k, getattr(m.pw, k)))
        actor = lambda r: rlt.ActorOutput(action=r[:, :1], squashed_mean=r[:, 1:])
        net = Model(env, "net", out, proto=rlt.FeatureData(torch.zeros(1, 3)), post=actor if kind in ("continuous", "discrete", "ranking") else None, bound=(-1, 1))
        net.train(True)
        s = raw(env, "s", P, B)
        b = builder()
        if kind in ("dqn", "c51", "qr"):
            served = b.build_serving_module(net, data(P), ["x", "y"], rlt.ModelFeatureConfig())
            names, got = served(rlt.ServingFeatureData(s, {}, {}))
            env.check(names == ["x", "y"], "action names")
        elif kind == "parametric":
            PA = norm(2)
            a = raw(env, "a", PA, B)
            names, got = b.build_serving_module(net, data(P), data(PA))(s, a)
            env.check(names == ["Q"], "name of the value")
        elif kind == "continuous":
            got = b.build_serving_module(net, data(P), data(PA), serve_mean_policy=mean)(s)
        elif kind == "ranking":
            c = [raw(env, f"c{i}", norm(3), B) for i in range(2)]
            got = b.build_ranking_serving_module(net, data(P), data(norm(3)), 2, data(PA))(s, c)
        else:
            got = b.build_serving_module(net, data(P), [0])(s)
        env.check(len(net.copies) == 1 and not net.seen and net.training, "the network itself is left alone")
        env.check(not any(net.copies[0].modes) and len(net.copies[0].modes) > 0, "the copy answers in evaluation mode")
        for k in range(B):
            row = cooked(env, P, env.L(s[0])[k], env.L(s[1])[k])
            if kind == "parametric":
                row = row + cooked(env, PA, env.L(a[0])[k], env.L(a[1])[k])
            if kind == "ranking":
                row = row + [x for v, h in c for x in cooked(env, norm(3), env.L(v)[k], env.L(h)[k])]
            r = answer(env, "net", row, int(np.prod(out)), -1, 1)
            if kind == "qr":
                env.eq(got[k], [ssum(r[3 * i:3 * i + 3]) / 3 for i in range(2)], "mean over the quantiles", 1e-4)
            elif kind in ("continuous", "ranking"):
                env.close([got[k][0].item()], [out_of(env, r[1 if mean else 0], -3, 5)], "served action", 1e-3)
            elif kind == "discrete":
                env.eq(got[k], r[:1], "served action")
            else:
                env.eq(got[k], r, "values")


for k in KINDS:
    suite.case(bounds="2 states", kind=k)(publish_case)
suite.case(bounds="2 states", kind="continuous", mean=True)(publish_case)


def kw_of(m):
    return m.seen[0][1]


def policy_case(env, kind, soft=None):
    """a policy for a published model: greedy unless a softmax was asked for, over the model's own scores"""
    n = 3
    scores = env.real("q", 1, n, lo=-4, hi=4)
    Q = env.L(scores)[0]

    class Served(nn.Module):
        def __init__(self, name):
            super().__init__()
            self.original_name, self.seen = name, []

        def forward(self, *a, **kw):
            self.seen.append((a, kw))
            if kind == "actor":
                return scores
            return ["x"] * n, scores.clone() if kind == "dqn" else scores.clone().reshape(n, 1)
    s = env.real("s", 1, 2)
    here = torch.ones(1, 2)
    if kind == "dqn":
        rl = None if soft is None else RLParameters(softmax_policy=soft, temperature=0.5)
        m = Served("DiscreteDqnPredictorWrapper")
        p = pp.create_predictor_policy_from_model(m, rl_parameters=rl)
        sparse = soft is None
        obs = rlt.ServingFeatureData((s, here), {1: "l"}, {2: "w"}) if sparse else (s, here)
        mask = np.array([True, False, True])
        env.check(isinstance(p.sampler, SoftmaxActionSampler if soft else GreedyActionSampler), "how actions are drawn")
        out = p.act(obs, mask)
        sf = m.seen[0][0][0]
        env.check(sf.float_features_with_presence[0] is s and sf.float_features_with_presence[1] is here, "features as given")
        env.check(sf.id_list_features == ({1: "l"} if sparse else {}) and sf.id_score_list_features == ({2: "w"} if sparse else {}), "lists as given")
        if soft:
            w = env.params("multinomial")[0][0]
            a, c = sexp(Q[0] / 0.5), sexp(Q[2] / 0.5)
            env.close([w[0] * (a + c), w[1], w[2] * (a + c)], [a * ssum(w), 0, c * ssum(w)], "drawn in proportion to the exponential of the scaled score", 1e-3)
        else:
            best = argmax_first(Q, [1, 0, 1])
            env.eq(out.action[0], [ite(best == i, 1, 0) for i in range(n)], "the best possible action")
    elif kind == "actor":
        m = Served("ActorPredictorWrapper")
        out = pp.create_predictor_policy_from_model(m).act((s, here))
        env.check(m.seen[0][0][0][0] is s and m.seen[0][0][0][1] is here, "features as given")
        env.eq(out.action, [Q], "the model's action")
    else:
        m = Served("ParametricDqnPredictorWrapper")
        env.check(env.raises(lambda: pp.create_predictor_policy_from_model(m)), "the number of actions must be known")
        if kind == "slate":
            p = pp.create_predictor_policy_from_model(m, max_num_actions=n, slate_size=2)
            docs, val = env.real("d", 1, n, 1), env.real("v", 1, n, lo=-1, hi=1)
            env.assume(sand(*[v > 0.25 for v in Q]))
            out = p.act(rlt.FeatureData(s, candidate_docs=rlt.DocList(docs, torch.ones(1, n, dtype=torch.bool), val)))
            w = [q * sexp(v) for q, v in zip(Q, env.L(val)[0])]
            a = [int(i) for i in env.L(out.action)[0]]
            env.check(isinstance(p.sampler, TopKSampler) and len(set(a)) == 2, "a slate of different items")
            rest = [i for i in range(n) if i not in a][0]
            env.le(w[rest], w[a[0]] + 0.001, "the best items")
            env.le(w[rest], w[a[1]] + 0.001, "the best items")
            env.le(w[a[1]], w[a[0]] + 0.001, "best first")
        else:
            p = pp.create_predictor_policy_from_model(m, max_num_actions=n)
            here = env.bools("here", 1, 2)
            out = p.act((s, here))
            env.eq(kw_of(m)["state_with_presence"][1], [env.L(here)[0]] * n, "which features are there")
            kw = m.seen[0][1]
            env.eq(kw["state_with_presence"][0], [env.L(s)[0]] * n, "the state beside every action")
            env.eq(kw["action_with_presence"][0], [[1 if i == j else 0 for j in range(n)] for i in range(n)], "every action")
            best = argmax_first(Q)
            env.eq(out.action[0], [ite(best == i, 1, 0) for i in range(n)], "the best action")
    env.check(env.raises(lambda: pp.create_predictor_policy_from_model(Served("Other")), NotImplementedError), "other modules are refused")


suite.case(bounds="1 state, 3 actions, one not possible", kind="dqn")(policy_case)
suite.case(bounds="1 state, 3 actions, one not possible", kind="dqn", soft=False)(policy_case)
suite.case(bounds="1 state, 3 actions, one not possible", kind="dqn", soft=True)(policy_case)
suite.case(bounds="1 state", kind="actor")(policy_case)
suite.case(bounds="1 state, 3 actions", kind="parametric")(policy_case)
suite.case(bounds="1 state, 3 items, slates of 2", kind="slate")(policy_case)
