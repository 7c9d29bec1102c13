"""Slate-ranking evaluators and slate reward networks."""
import math
import types
import numpy as np
import torch.nn as nn
from reagent.core.tracker import observable
from reagent.evaluation import ranking_listwise_evaluator as le, ranking_policy_gradient_evaluator as pe
from reagent.model_utils.seq2slate_utils import Seq2SlateMode as Mode
from reagent.models import seq2slate as s2s, seq2slate_reward as sr
from checks.common import *

suite = Suite("D32", ["networks inside a composed network are stood in for by simple known functions, weights are fixed numbers",
                      "the four ranking metrics of scikit-learn return arbitrary numbers; what they are given is checked"])


class Ranker(nn.Module):
    """answers scores, rankings and log-probabilities from arbitrary tensors"""

    def __init__(self, scores=None, ranked=None, probs=None, logp=None):
        super().__init__()
        self.scores, self.ranked, self.probs, self.logp, self.asked = scores, ranked, probs, logp, []

    def forward(self, x, mode, greedy=None):
        self.asked.append((x, mode, greedy, self.training))
        if mode == Mode.ENCODER_SCORE_MODE:
            return rlt.RankingOutput(encoder_scores=self.scores)
        if mode == Mode.RANK_MODE:
            return rlt.RankingOutput(ranked_tgt_out_idx=self.ranked, ranked_per_seq_probs=self.probs)
        return rlt.RankingOutput(log_probs=self.logp)


def listwise_case(env, B, T, ranked, logged, cpe, training):
    """pages report the divergence of softmax(scores) from the position rewards, and each metric's mean over slates with both relevant and irrelevant items:
    labels and the two rankings (the model's, the logged one) are laid out per item"""
    sc, pr = env.real("sc", B, T, lo=-3, hi=3), env.ints("pr", B, T, lo=0, hi=1).float()
    net = Ranker(scores=sc, ranked=torch.tensor(ranked) + 2)
    x = rlt.PreprocessedRankingInput.from_input(state=torch.zeros(B, 1), candidates=torch.zeros(B, T, 1), device=torch.device("cpu"), action=torch.tensor(logged),
                                                logged_propensities=torch.ones(B, 1), position_reward=pr)
    env.eq(x.position_reward, env.L(pr), "position rewards")
    ev, told, calls = le.RankingListwiseEvaluator(net, T, cpe), [], []
    ev.notify_observers = lambda **kw: told.append(kw)
    P, S = env.L(pr), env.L(sc)
    useful = [bool(sand(sor(*[v == 1 for v in r]), sor(*[v == 0 for v in r]))) for r in P]
    num = {}

    def metric(name):
        def f(truth, scores):
            k = len([c for c in calls if c[0] == name])
            calls.append((name, truth, scores))
            num.setdefault(name, []).append(env.num(f"{name}{k}", lo=0, hi=1))
            return num[name][-1]
        return f

    class NP:
        def __getattr__(self, n):
            return getattr(np, n)

        @staticmethod
        def zeros(n):
            return np.array([0] * n, dtype=object)

    net.train(training)
    patches = [env.patch(le, n + "_score", metric(n)) for n in ("average_precision", "roc_auc", "dcg", "ndcg")] + [env.patch(le, "np", NP() if env.sym else np)]
    for p in patches:
        p.__enter__()
    try:
        ev.evaluate(x)
    finally:
        for p in patches[::-1]:
            p.__exit__(None, None, None)
    env.check(net.training == training and net.asked[0][1:3] == (Mode.ENCODER_SCORE_MODE, None) and not net.asked[0][3], "scored in evaluation mode, which is restored")
    ce = 0
    for s, r in zip(S, P):
        e = [sexp(v) for v in s]
        Z = ssum(e)
        ce = ce + ssum(ite(p > 0, p * (0 - (v - slog(Z))), 0) for p, v in zip(r, s)) / B
    env.check(len(told) == 1, "observers are told once per page")
    t = told[0]
    env.eq(t["cross_entropy_loss"], ce, "cross entropy", 1e-4)
    if not cpe:
        env.check(set(t) == {"cross_entropy_loss"} and len(net.asked) == 1, "nothing else is reported")
        return
    env.check(net.asked[1][1:3] == (Mode.RANK_MODE, True), "slates are ranked greedily")
    bar = list(range(T, 0, -1))

    def laid(idx, vals):
        r = [0] * T
        for i, v in zip(idx, vals):
            r[i] = v
        return r

    rows = [b for b in range(B) if useful[b]]
    if not rows:
        env.check(not calls, "slates without both kinds of items are skipped")
        return
    for name, model, base in (("average_precision", "mean_ap", "base_map"), ("roc_auc", "auc", "base_auc"), ("dcg", "dcg", "base_dcg"), ("ndcg", "ndcg", "base_ndcg")):
        mine = [c for c in calls if c[0] == name]
        env.check(len(mine) == 2 * len(rows), "each metric is asked twice per slate")
        got = {"model": [], "base": []}
        for i, b in enumerate(rows):
            truth, by_model, by_base = laid(logged[b], P[b]), laid(ranked[b], bar), laid(logged[b], bar)
            for (_, tr, scs), v, want, key in ((mine[2 * i], num[name][2 * i], by_model, "model"), (mine[2 * i + 1], num[name][2 * i + 1], by_base, "base")):
                tr, scs = [list(np.asarray(a).reshape(-1)) for a in (tr, scs)]
                env.eq(tr, truth, "labels per item")
                env.eq(scs, want, f"{key} ranking per item")
                got[key].append(v)
        env.eq(t[model], [ssum(got["model"]) / len(rows)], f"{model} of the model", 1e-5)
        env.eq(t[base], [ssum(got["base"]) / len(rows)], f"{base} of the logged slates", 1e-5)


suite.case(bounds="2 slates of 3, any labels", B=2, T=3, ranked=[[1, 2, 0], [2, 0, 1]], logged=[[0, 2, 1], [2, 1, 0]], cpe=True, training=True)(listwise_case)
suite.case(bounds="1 slate of 2, any labels", B=1, T=2, ranked=[[1, 0]], logged=[[0, 1]], cpe=True, training=False)(listwise_case)
suite.case(bounds="2 slates of 2, losses only", B=2, T=2, ranked=[[1, 0]] * 2, logged=[[0, 1]] * 2, cpe=False, training=True)(listwise_case)


class Page:
    def __init__(self, parts):
        self.parts = parts

    def append(self, other):
        return Page(self.parts + other.parts)


def policy_case(env, B, baseline, cpe, rounds):
    """pages report the probabilities of logged and greedy slates, the baseline's squared error and the advantages; greedy and sampled pages are collected apart, in order,
    handed over at the end and started afresh"""
    base = None
    if baseline:
        class Base(nn.Module):
            outs, modes = [], []

            def forward(self, x):
                self.modes.append(self.training)
                return self.outs[len(self.modes) - 1]
        Base.outs, Base.modes = [env.real(f"bl{k}", B, 1, lo=-4, hi=4) for k in range(rounds)], []
        base = Base()
        base.train(False)
    net, rnet = Ranker(), nn.Linear(1, 1)
    tr = types.SimpleNamespace(seq2slate_net=net, baseline_net=base)
    env.refuses(lambda: pe.RankingPolicyGradientEvaluator(tr, True))
    ev = pe.RankingPolicyGradientEvaluator(tr, cpe, rnet if cpe else None)
    told, made = [], []
    ev.notify_observers = lambda **kw: told.append(kw)

    class Pages:
        @staticmethod
        def create_from_tensors_seq2slate(n, r, x, eval_greedy):
            made.append((n, r, x, eval_greedy))
            return Page([(x, eval_greedy)])

    xs = []
    with env.patch(pe, "EvaluationDataPage", Pages):
        for k in range(rounds):
            R, lp, pb = env.real(f"r{k}", B, 1, lo=-4, hi=4), env.real(f"lp{k}", B, 1, lo=-3, hi=0), env.real(f"pb{k}", B, 1, lo=0, hi=1)
            net.logp, net.probs, net.ranked, net.asked = lp, pb, torch.zeros(B, 2).long(), []
            x = rlt.PreprocessedRankingInput.from_input(state=torch.zeros(B, 1), candidates=torch.zeros(B, 2, 1), device=torch.device("cpu"), action=torch.zeros(B, 2).long(),
                                                        logged_propensities=torch.ones(B, 1), slate_reward=R)
            xs.append(x)
            net.train(k == 0)
            ev.evaluate(x)
            env.check(net.training == (k == 0) and not any(a[3] for a in net.asked), "evaluated in evaluation mode, which is restored")
            env.check([(a[1], a[2]) for a in net.asked] == [(Mode.PER_SEQ_LOG_PROB_MODE, None), (Mode.RANK_MODE, True)] and all(a[0] is x for a in net.asked), "logged slates are scored, greedy ones ranked")
            if baseline:
                env.check(not base.training and not any(Base.modes), "the baseline is evaluated in evaluation mode")
            if not cpe:
                env.check(not told and not made, "nothing is reported")
                continue
            t = told[k]
            V, RR = [v[0] for v in env.L(Base.outs[k])] if baseline else [0] * B, [v[0] for v in env.L(R)]
            env.eq(t["eval_baseline_loss"], [ssum((v - r) * (v - r) for v, r in zip(V, RR)) / B if baseline else 0], "baseline loss", 1e-5)
            env.eq(t["eval_advantages"], [r - v for v, r in zip(V, RR)], "advantages")
            env.eq(t["logged_slate_rank_probs"], [sexp(v[0]) for v in env.L(lp)], "probabilities of logged slates")
            env.eq(t["ranked_slate_rank_probs"], env.L(pb), "probabilities of greedy slates")
            env.check(made[2 * k:] == [(net, rnet, x, True), (net, rnet, x, False)], "a greedy and a sampled page per batch")
        ev.evaluate_post_training()
        if cpe:
            t = told[-1]
            env.check(set(t) == {"eval_data_pages_g", "eval_data_pages_ng"} and t["eval_data_pages_g"].parts == [(x, True) for x in xs]
                      and t["eval_data_pages_ng"].parts == [(x, False) for x in xs], "pages in order")
            env.check(ev.eval_data_pages_g is None and ev.eval_data_pages_ng is None, "started afresh")


suite.case(bounds="2 slates, 2 batches, baseline", B=2, baseline=True, cpe=True, rounds=2)(policy_case)
suite.case(bounds="2 slates, 3 batches, no baseline", B=2, baseline=False, cpe=True, rounds=3)(policy_case)
suite.case(bounds="1 slate, no counterfactual pages", B=1, baseline=True, cpe=False, rounds=1)(policy_case)


# ------------------------------------------------------------------ reward networks
def fixed(lin, w, b):
    with torch.no_grad():
        lin.weight.copy_(torch.tensor(w))
        lin.bias.copy_(torch.tensor(b))


SW, SB, CW, CB = [[0.5]], [0.25], [[-0.5]], [1.0]


def embedded(s, c):
    """dimension 1 for the state, 1 for the candidate"""
    return [SW[0][0] * s + SB[0], CW[0][0] * c + CB[0]]


def ranking(env, B, n, T, slates):
    st, src = env.real("state", B, 1, lo=-2, hi=2), env.real("items", B, n, 1, lo=-2, hi=2)
    x = rlt.PreprocessedRankingInput.from_input(state=st, candidates=src, device=torch.device("cpu"), action=torch.tensor(slates), logged_propensities=torch.ones(B, 1), slate_reward=torch.zeros(B, 1))
    return x, [v[0] for v in env.L(st)], [[v[0] for v in r] for r in env.L(src)]


def gru_case(env, B, n, T, slates, end):
    """the recurrent layer reads the slate in order, then the items left out, then an end mark; the reward is read from its last state beside
    the outputs weighted by their agreement with it"""
    net = sr.Seq2SlateGRURewardNet(state_dim=1, candidate_dim=1, num_stacked_layers=2, dim_model=2, max_src_seq_len=n, max_tgt_seq_len=T)
    fixed(net.candidate_embedder.linear, CW, CB)
    fixed(net.state_embedder.linear, SW, SB)
    fixed(net.proj, [[0.5, -1.0, 2.0, 0.25]], [0.125])
    net.end_of_seq_vec.data.fill_(end)
    out, hn = env.real("out", B, n + 1, 2, lo=-1, hi=1), env.real("hn", 2, B, 2, lo=-1, hi=1)
    seen = []

    class GRU(nn.Module):
        def forward(self, x):
            seen.append(x)
            return out, hn

    net.gru = GRU()
    x, S, C = ranking(env, B, n, T, slates)
    r = net(x).predicted_reward
    env.shape(r, (B, 1), "reward")
    want = []
    for b in range(B):
        order = slates[b] + [j for j in range(n) if j not in slates[b]]
        want.append([embedded(S[b], C[b][j]) for j in order] + [embedded(S[b], end)])
    env.eq(seen[0], want, "what the recurrent layer reads", 1e-5)
    O, H = env.L(out), env.L(hn)[1]
    for b in range(B):
        e = [sexp(ssum(o * h for o, h in zip(O[b][t], H[b]))) for t in range(n + 1)]
        ctx = [ssum(e[t] * O[b][t][k] for t in range(n + 1)) / ssum(e) for k in range(2)]
        env.eq(env.L(r)[b][0], 0.5 * H[b][0] - H[b][1] + 2 * ctx[0] + 0.25 * ctx[1] + 0.125, "reward", 1e-4)
    w = sr.Seq2SlateRewardNetJITWrapper(net)
    env.eq(w(x.state.float_features, x.src_seq.float_features, x.tgt_out_seq.float_features, x.src_src_mask, x.tgt_out_idx), env.L(r), "wrapped reward")


suite.case(bounds="2 examples, 2 out of 3 items", B=2, n=3, T=2, slates=[[2, 0], [1, 2]], end=0.0)(gru_case)
suite.case(bounds="1 example, 2 out of 4 items", B=1, n=4, T=2, slates=[[3, 1]], end=-0.5)(gru_case)
suite.case(bounds="1 example, 2 out of 2 items", B=1, n=2, T=2, slates=[[1, 0]], end=0.5)(gru_case)


PW, PB = [[1.0, 0.5, 0.25], [0.0, 1.0, -1.0]], [0.5, 2.0]


def positioned(rows):
    z = [[ssum(w * v for w, v in zip(PW[k], r + [i])) + PB[k] for k in range(2)] for i, r in enumerate(rows)]
    return [[smax(v, 0) for v in r] for r in z]


def transformer_case(env, B, n, T, slates, start):
    """the encoder reads the candidates with the source mask, the decoder a start mark and the slate with everything up to each position visible;
    the reward is read from the last position"""
    net = sr.Seq2SlateTransformerRewardNet(state_dim=1, candidate_dim=1, num_stacked_layers=1, num_heads=1, dim_model=2, dim_feedforward=2, max_src_seq_len=n, max_tgt_seq_len=T)
    fixed(net.candidate_embedder.linear, CW, CB)
    fixed(net.state_embedder.linear, SW, SB)
    fixed(net.positional_encoding_encoder.pos_embed, PW, PB)
    fixed(net.positional_encoding_decoder.pos_embed, PW, PB)
    fixed(net.proj, [[0.5, -1.0]], [0.125])
    net.decoder_start_vec.data.fill_(start)
    mem, out = env.real("mem", B, n, 2), env.real("out", B, T + 1, 2, lo=-4, hi=4)
    seen = []

    class Enc(nn.Module):
        def forward(self, x, mask):
            seen.append((x, mask))
            return mem

    class Dec(nn.Module):
        def forward(self, x, memory, ts, tt):
            seen.append((x, memory, ts, tt))
            return out

    net.encoder, net.decoder = Enc(), Dec()
    x, S, C = ranking(env, B, n, T, slates)
    r = net(x).predicted_reward
    env.eq(seen[0][0], [positioned([embedded(S[b], c) for c in C[b]]) for b in range(B)], "what the encoder reads", 1e-5)
    env.check(seen[0][1] is x.src_src_mask and seen[1][1] is mem, "source mask and memory")
    env.eq(seen[1][0], [positioned([embedded(S[b], start)] + [embedded(S[b], C[b][j]) for j in slates[b]]) for b in range(B)], "what the decoder reads", 1e-5)
    env.check(seen[1][2].tolist() == [[[1.0] * n] * (T + 1)] * B, "every candidate is visible")
    tt = seen[1][3]
    env.check(tt.tolist() == [[[k <= i for k in range(T + 1)] for i in range(T + 1)]], "positions up to the current one are visible")
    env.eq(r, [[0.5 * o[T][0] - o[T][1] + 0.125] for o in env.L(out)], "reward", 1e-5)


suite.case(bounds="2 examples, 2 out of 3 items", B=2, n=3, T=2, slates=[[2, 0], [1, 2]], start=0.5)(transformer_case)
suite.case(bounds="1 example, 2 out of 2 items", B=1, n=2, T=2, slates=[[1, 0]], start=-1.0)(transformer_case)


class Plus(nn.Module):
    def __init__(self, c=1.0):
        super().__init__()
        self.c = c

    def forward(self, x):
        return x + self.c


def layers_case(env, B, T, n):
    """a layer adds to its input what each sublayer makes of the normalised input, in order; a stack runs its layers in order and normalises the result"""
    x, m = env.real("x", B, T, 2, lo=-2, hi=2), env.real("m", B, n, 2, lo=-2, hi=2)
    M1, M2 = object(), object()
    seen = []

    class Attn(nn.Module):
        def __init__(self, a):
            super().__init__()
            self.a = a

        def forward(self, query, key, value, mask=None):
            seen.append(mask)
            return self.a * query + key.sum(dim=1, keepdim=True) - 2 * value[:, :1]

    class FF(nn.Module):
        def forward(self, x):
            return 3 * x - 1

    def norm(layer):
        for i, s in enumerate(layer.sublayer):
            s.norm = Plus(float(i + 1))
        return layer

    enc = norm(s2s.EncoderLayer(2, Attn(2.0), FF()))
    dec = norm(s2s.DecoderLayer(2, Attn(2.0), Attn(-1.0), FF()))
    E_, D_ = s2s.Encoder(enc, 2), s2s.Decoder(dec, 2)
    env.check(len(E_.layers) == 2 and len(D_.layers) == 2 and E_.layers[0] is not E_.layers[1] and D_.layers[0] is not D_.layers[1], "as many layers as asked, with weights of their own")
    E_.norm, D_.norm = Plus(7.0), Plus(5.0)

    def att(a, q, k, v):
        tot = [ssum(r[c] for r in k) for c in range(2)]
        return [[a * r[c] + tot[c] - 2 * v[0][c] for c in range(2)] for r in q]

    add = lambda a, b: [[u + v for u, v in zip(p, q)] for p, q in zip(a, b)]
    plus = lambda a, c: [[v + c for v in r] for r in a]
    ff = lambda a: [[3 * v - 1 for v in r] for r in a]
    X, MM = env.L(x), env.L(m)

    def enc1(v):
        w = plus(v, 1)
        v = add(v, att(2, w, w, w))
        return add(v, ff(plus(v, 2)))

    def dec1(v, mem):
        w = plus(v, 1)
        v = add(v, att(2, w, w, w))
        v = add(v, att(-1, plus(v, 2), mem, mem))
        return add(v, ff(plus(v, 3)))

    env.eq(E_(x, M1), [plus(enc1(enc1(v)), 7) for v in X], "encoder", 1e-4)
    env.check(len(seen) == 2 and all(s is M1 for s in seen), "source mask")
    env.eq(D_(x, m, M1, M2), [plus(dec1(dec1(v, w), w), 5) for v, w in zip(X, MM)], "decoder", 1e-4)
    env.check([s is M2 for s in seen[2:]] == [True, False] * 2 and seen[3] is M1, "target mask, then source mask")


suite.case(bounds="2 examples, 2 positions, 3 candidates, 2 layers", B=2, T=2, n=3)(layers_case)


def heads_case(env, B, H, d, T, n, masked):
    """each head attends with its own slice of the projected query, key and value; the heads' answers side by side are projected back"""
    mha = s2s.MultiHeadedAttention(H, H * d)
    D = H * d
    Ws = [[[((3 * i + 5 * j + 7 * k) % 9 - 4) / 4 for j in range(D)] for i in range(D)] for k in range(4)]
    Bs = [[(i - k) / 2 for i in range(D)] for k in range(4)]
    for lin, w, b in zip(mha.linears, Ws, Bs):
        fixed(lin, w, b)
    q, k, v = env.real("q", B, T, D, lo=-2, hi=2), env.real("k", B, n, D, lo=-2, hi=2), env.real("v", B, n, D, lo=-2, hi=2)
    mask = torch.ones(B, T, n) if masked else None

    def attention(q, k, v, m, dk):
        env.check(dk == d and (tuple(m.shape) == (B, 1, T, n) if masked else m is None), "size of a head and mask shared by the heads")
        env.shape(q, (B, H, T, d), "queries by head")
        env.shape(k, (B, H, n, d), "keys by head")
        return 2 * q + k.sum(dim=2, keepdim=True) - 3 * v[:, :, :1], None

    with env.patch(s2s, "attention", attention):
        got = mha(q, k, v, mask)
    env.shape(got, (B, T, D), "attended")
    lin = lambda k, r: [ssum(w * x for w, x in zip(Ws[k][i], r)) + Bs[k][i] for i in range(D)]
    for b in range(B):
        Q, K, V = [lin(0, r) for r in env.L(q)[b]], [lin(1, r) for r in env.L(k)[b]], [lin(2, r) for r in env.L(v)[b]]
        for t in range(T):
            row = [2 * Q[t][i] + ssum(K[j][i] for j in range(n)) - 3 * V[0][i] for i in range(D)]
            env.eq(env.L(got)[b][t], lin(3, row), "attended", 1e-4)


suite.case(bounds="2 examples, 2 heads of 1, 2 positions, 3 keys", B=2, H=2, d=1, T=2, n=3, masked=True)(heads_case)
suite.case(bounds="1 example, 2 heads of 2, 1 position, 2 keys", B=1, H=2, d=2, T=1, n=2, masked=False)(heads_case)


def blocks_case(env):
    """feed-forward blocks and the baseline are the layers they name, in order"""
    ff = s2s.PositionwiseFeedForward(2, 3)
    W1, b1, W2, b2 = [[1.0, -0.5], [0.25, 2.0], [-1.0, 0.0]], [0.5, -0.25, 0.0], [[1.0, 2.0, -1.0], [0.5, 0.0, 1.0]], [0.0, 1.0]
    fixed(ff.net[0], W1, b1)
    fixed(ff.net[2], W2, b2)
    x = env.real("x", 2, 2, 2, lo=-4, hi=4)
    aff = lambda W, b, r: [ssum(w * v for w, v in zip(row, r)) + c for row, c in zip(W, b)]
    relu = lambda r: [smax(v, 0) for v in r]
    env.eq(ff(x), [[aff(W2, b2, relu(aff(W1, b1, r))) for r in e] for e in env.L(x)], "feed-forward", 1e-4)
    base = s2s.BaselineNet(2, 3, 2)
    lin = [m for m in base.mlp if isinstance(m, nn.Linear)]
    env.check([(m.in_features, m.out_features) for m in lin] == [(2, 3), (3, 3), (3, 1)], "sizes of the baseline's layers")
    W3, b3, W4, b4 = [[1.0, 0.0, -1.0], [0.5, 1.0, 0.0], [0.0, -0.5, 1.0]], [0.0, 0.25, -0.5], [[1.0, -2.0, 0.5]], [0.75]
    for m, w, b in zip(lin, (W1, W3, W4), (b1, b3, b4)):
        fixed(m, w, b)
    st = env.real("st", 2, 2, lo=-4, hi=4)
    got = base(types.SimpleNamespace(state=rlt.FeatureData(st)))
    env.eq(got, [aff(W4, b4, relu(aff(W3, b3, relu(aff(W1, b1, r))))) for r in env.L(st)], "baseline", 1e-4)


suite.case(bounds="2 rows of 2 features")(blocks_case)
