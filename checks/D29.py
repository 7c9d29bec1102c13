"""Sequence-to-slate ranking model: masks, decoding, and the probabilities it reports for slates."""
import math
import types
from itertools import permutations
import torch.nn as nn
from reagent.model_utils import seq2slate_utils as su
from reagent.model_utils.seq2slate_utils import Seq2SlateMode as Mode, Seq2SlateOutputArch as Arch
from reagent.models import seq2slate as s2s
from checks.common import *
from checks.D12 import proportional

suite = Suite("D29", ["the transformer layers of PyTorch are replaced by arbitrary or by known functions with the same interface; embedding and scoring weights are listed numbers",
                      "items, states and scores are arbitrary in bounded ranges"])


def softmax_over(scores, allowed):
    """softmax among the allowed; 0 elsewhere"""
    e = [ite(a, sexp(s), 0) for s, a in zip(scores, allowed)]
    t = ssum(e)
    return [x / t for x in e]


# ------------------------------------------------------------------ masks
def logits_mask_case(env, B, T, n):
    """reserved symbols and symbols already consumed can never be produced; every other score is untouched"""
    x = env.real("x", B, T, n + 2, lo=-5, hi=5)
    ix = env.ints("ix", B, T, lo=0, hi=n + 1)
    want, I = env.L(x), env.L(ix)
    got = env.L(torch.softmax(su.mask_logits_by_idx(x, ix), dim=2))
    for b in range(B):
        for l in range(T):
            ok = [j >= 2 and sand(*[snot(I[b][k] == j) for k in range(l + 1)]) for j in range(n + 2)]
            env.assume(sor(*ok))
            p = softmax_over(want[b][l], ok)
            for j in range(n + 2):
                env.eq(got[b][l][j], p[j], "probability after masking")


suite.case(bounds="2 rows, 2 steps, 3 candidates, any consumed symbols", B=2, T=2, n=3)(logits_mask_case)
suite.case(bounds="1 row, 3 steps, 4 candidates", B=1, T=3, n=4)(logits_mask_case)


def attend_mask_case(env, B, T, n, heads):
    """the decoder sees earlier and current positions only, and never attends to an item already placed"""
    ix = env.ints("ix", B, T, lo=0, hi=n + 1)
    I = env.L(ix)
    mem = torch.zeros(B, n, 2)
    tt, ts = su.pytorch_decoder_mask(mem, ix, heads)
    env.shape(tt, (B * heads, T, T), "self-attention mask")
    env.shape(ts, (B * heads, T, n), "mask over items")
    tt, ts = env.L(tt), env.L(ts)
    for r in range(B * heads):
        for l in range(T):
            for k in range(T):
                env.check(tt[r][l][k] == (k > l), "positions after the current one are hidden")
            for j in range(n):
                used = sor(*[I[r // heads][k] == j + 2 for k in range(l + 1)])
                env.check(ite(used, 1, 0) == ite(ts[r][l][j] != 0, 1, 0), "items placed so far are hidden")
    s = env.L(su.subsequent_mask(T, torch.device("cpu")))
    pm = env.L(su.subsequent_and_padding_mask(ix))
    for l in range(T):
        for k in range(T):
            env.check(bool(s[0][l][k]) == (k <= l), "subsequent mask")
            for b in range(B):
                env.check(ite(pm[b][l][k] != 0, 1, 0) == ite(sand(k <= l, I[b][k] != 0), 1, 0), "subsequent and padding mask")


suite.case(bounds="2 rows, 3 steps, 3 candidates, 2 heads", B=2, T=3, n=3, heads=2)(attend_mask_case)


def attention_case(env, B, H, T, d):
    """scaled dot-product attention over the positions that are not masked"""
    q, k, v = (env.real(x, B, H, T, d, lo=-1, hi=1) for x in "qkv")
    m = env.ints("m", B, 1, T, T, lo=0, hi=1)
    Q, K, V, M = env.L(q), env.L(k), env.L(v), env.L(m)
    for b in range(B):
        for i in range(T):
            env.assume(sor(*[M[b][0][i][j] == 1 for j in range(T)]))
    out, w = su.attention(q, k, v, m, d)
    env.shape(out, (B, H, T, d), "attention")
    out, w = env.L(out), env.L(w)
    for b in range(B):
        for h in range(H):
            for i in range(T):
                sc = [ssum(Q[b][h][i][c] * K[b][h][j][c] for c in range(d)) / math.sqrt(d) for j in range(T)]
                p = softmax_over(sc, [M[b][0][i][j] == 1 for j in range(T)])
                env.eq(w[b][h][i], p, "attention weights", 1e-5)
                env.eq(out[b][h][i], [ssum(w[b][h][i][j] * V[b][h][j][c] for j in range(T)) for c in range(d)], "attended value", 1e-5)


suite.case(bounds="2 heads, 2 positions, depth 1", B=1, H=2, T=2, d=1)(attention_case)
suite.case(bounds="2 rows, 2 positions, depth 2", B=2, H=1, T=2, d=2)(attention_case)


def seq_probs_case(env, B, T, n):
    """a slate's probability is the product of its symbols' probabilities, its log-probability the sum"""
    p = env.real("p", B, T, n, lo=0.1, hi=1)
    lp = env.real("lp", B, T, n, lo=-9, hi=0)
    ix = env.ints("ix", B, T, lo=0, hi=n - 1)
    I, P, LP = env.L(ix), env.L(p), env.L(lp)
    a, b_ = su.per_symbol_to_per_seq_probs(p, ix), su.per_symbol_to_per_seq_log_probs(lp, ix)
    env.shape(a, (B, 1), "sequence probability")
    env.shape(b_, (B, 1), "sequence log-probability")
    for b in range(B):
        w = 1
        for l in range(T):
            w = w * pick_at(P[b][l], I[b][l])
        env.eq(env.L(a)[b][0], w, "sequence probability")
        env.eq(env.L(b_)[b][0], ssum(pick_at(LP[b][l], I[b][l]) for l in range(T)), "sequence log-probability")


suite.case(bounds="2 rows, 3 positions, 3 symbols", B=2, T=3, n=3)(seq_probs_case)


# ------------------------------------------------------------------ the network
class Mix(nn.Module):
    """stands in for the transformer encoder: sequence first, mixes along the sequence, keeps examples apart"""

    def forward(self, x):
        return x + 0.5 * x.sum(dim=0, keepdim=True)


class Toy(nn.Module):
    """stands in for the decoder: scores items arbitrarily from everything the masks leave visible"""

    def __init__(self, env, heads):
        super().__init__()
        self.heads = heads
        self.f = env.net("dec", 1, bound=(-4, 4), row_dims=3)

    def forward(self, tgt, memory, tgt_src_mask, tgt_tgt_mask):
        B, T, d = tgt.shape
        n = memory.shape[1]
        see = (tgt_tgt_mask[:: self.heads] == 0).float()
        q = torch.bmm(see, tgt)
        x = torch.cat((q[:, :, None, :].expand(B, T, n, d), memory[:, None].expand(B, T, n, memory.shape[2])), dim=3)
        s = self.f(x).squeeze(3).masked_fill(tgt_src_mask[:: self.heads], float("-inf"))
        return torch.cat((torch.zeros(B, T, 2), torch.softmax(s, dim=2)), dim=2)


SW, SB = [[0.5]], [0.25]
CW, CB = [[-0.5], [0.25]], [0.5, 0.0]
XW, XB = [[1.0, -0.5, 0.25]], [0.125]
PW, PB = [[1.0, 0.5, 0.0, 0.25], [0.0, 1.0, -1.0, 0.5], [0.5, 0.0, 1.0, -0.25]], [0.5, 2.0, 1.5]


def build(env, arch, n, T, d=3):
    net = s2s.Seq2SlateTransformerNet(state_dim=1, candidate_dim=1, num_stacked_layers=1, num_heads=1, dim_model=d, dim_feedforward=2, max_src_seq_len=n, max_tgt_seq_len=T,
                                      output_arch=arch, temperature=1.0, state_embed_dim=1)
    m = net.seq2slate
    with torch.no_grad():
        for lin, w, b in ((m.state_embedder.linear, SW, SB), (m.candidate_embedder.linear, CW[:d - 1], CB[:d - 1]), (m.encoder_scorer, [XW[0][:d]], XB),
                          (m.positional_encoding_decoder.pos_embed, [r[:d] + r[3:] for r in PW[:d]], PB[:d])):
            lin.weight.copy_(torch.tensor(w))
            lin.bias.copy_(torch.tensor(b))
    m.encoder.transformer_encoder = Mix()
    if arch == Arch.AUTOREGRESSIVE:
        m.decoder = Toy(env, 1)
    return net


def embed(S, C, d=3):
    """memory of one example: state embedding beside each candidate's embedding, mixed over the candidates"""
    rows = [[SW[0][0] * S[0] + SB[0]] + [(CW[k][0] * c[0] + CB[k]) * math.sqrt(d - 1) for k in range(d - 1)] for c in C]
    tot = [ssum(r[k] for r in rows) for k in range(d)]
    return [[r[k] + 0.5 * tot[k] for k in range(d)] for r in rows]


def score(row):
    return ssum(w * x for w, x in zip(XW[0], row)) + XB[0]


def inputs(env, B, n, d=3):
    st, src = env.real("state", B, 1, lo=-2, hi=2), env.real("items", B, n, 1, lo=-2, hi=2)
    return st, src, [embed(s, c, d) for s, c in zip(env.L(st), env.L(src))]


def batch(st, src, **kw):
    return rlt.PreprocessedRankingInput.from_input(state=st, candidates=src, device=torch.device("cpu"), **kw)


def encode_case(env, B, n):
    """every candidate is encoded with its own example's state, among its own example's candidates"""
    st, src, mem = inputs(env, B, n)
    net = build(env, Arch.FRECHET_SORT, n, n)
    got = net.seq2slate.encode(st, src)
    env.shape(got, (B, n, 3), "memory")
    env.eq(got, mem, "memory", 1e-5)


suite.case(bounds="2 examples, 3 candidates", B=2, n=3)(encode_case)


def slates(n, T):
    return [list(p) for p in permutations(range(n), T)]


def encoded(env, net, B, n, st, src, d=3):
    """the encoder returns arbitrary scores (encoding itself has its own case); returns them"""
    mem = env.real("mem", B, n, d, lo=-4, hi=4)
    with torch.no_grad():
        net.seq2slate.encoder_scorer.weight.copy_(torch.tensor([[0.0, 1.0, 0.0][:d]]))
        net.seq2slate.encoder_scorer.bias.zero_()

    def encode(state, src_seq):
        env.eq(state, env.L(st), "state handed to the encoder")
        env.eq(src_seq, env.L(src), "items handed to the encoder")
        return mem

    net.seq2slate.encode = encode
    return [[r[1] for r in m] for m in env.L(mem)]


def pl(scores, slate):
    """probabilities of drawing the slate without replacement, position by position"""
    out = []
    for l in range(len(slate)):
        out.append(softmax_over(scores, [j not in slate[:l] for j in range(len(scores))]))
    return out


def pinned(env, B, n, T, run, some=None):
    """runs decoding with the draws of a picked slate per example; returns what was drawn from"""
    pick = [env.pick(f"slate{b}", some or slates(n, T)) for b in range(B)]
    seen = []

    def multinomial(p, num_samples=1, replacement=False, **kw):
        seen.append(p)
        env.check(num_samples == 1 and tuple(p.shape) == (B, n + 2), "one draw per example and position")
        return torch.tensor([[pick[b][len(seen) - 1] + 2] for b in range(B)])

    with env.patch(torch, "multinomial", multinomial):
        out = run()
    env.check(len(seen) == T, "number of draws")
    return pick, seen, out


def frechet_case(env, B, n, T):
    """sampling draws positions one after another without replacement by softmax of the scores, and reports the probabilities it drew with;
    scoring the same slate afterwards gives the same probability"""
    st, src, _ = inputs(env, B, n)
    net = build(env, Arch.FRECHET_SORT, n, T)
    sc = encoded(env, net, B, n, st, src)
    b0 = batch(st, src)
    pick, seen, out = pinned(env, B, n, T, lambda: net(b0, mode=Mode.RANK_MODE, tgt_seq_len=T, greedy=False))
    env.eq(out.ranked_tgt_out_idx, [[x + 2 for x in p] for p in pick], "the slate holds what was drawn")
    env.shape(out.ranked_per_symbol_probs, (B, T, n + 2), "per-symbol probabilities")
    env.shape(out.ranked_per_seq_probs, (B, 1), "sequence probability")
    again = batch(st, src, action=torch.tensor(pick), logged_propensities=out.ranked_per_seq_probs.detach())
    env.eq(again.tgt_out_probs, out.ranked_per_seq_probs, "logged propensity")
    seq = net(again, mode=Mode.PER_SEQ_LOG_PROB_MODE).log_probs
    sym = net(again, mode=Mode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs
    env.shape(seq, (B, 1), "sequence log-probability")
    env.shape(sym, (B, T, n + 2), "per-symbol log-probabilities")
    for b in range(B):
        P = pl(sc[b], pick[b])
        full = 1
        for l in range(T):
            proportional(env, env.L(seen[l])[b], [0, 0] + P[l], "drawing probability")
            env.eq(env.L(out.ranked_per_symbol_probs)[b][l], [0, 0] + P[l], "reported symbol probability", 1e-4)
            full = full * P[l][pick[b][l]]
            for j in range(n + 2):
                w = P[l][j - 2] if j >= 2 and j - 2 not in pick[b][:l] else None
                got = env.L(torch.exp(sym))[b][l][j]
                if w is None:
                    env.close([got], [0], "symbol probability when scored", 1e-6)
                else:
                    env.eq(got, smax(w, 1e-40), "symbol probability when scored", 1e-4)
        env.eq(env.L(out.ranked_per_seq_probs)[b][0], smax(full, 1e-40), "reported slate probability", 1e-4)
        env.eq(env.L(torch.exp(seq))[b][0], smax(full, 1e-40), "slate probability when scored", 1e-4)


suite.case(bounds="1 example, slates of 2 out of 3", B=1, n=3, T=2)(frechet_case)
suite.case(bounds="2 examples, slates of 2 out of 2", B=2, n=2, T=2)(frechet_case)
suite.case(bounds="1 example, slates of 3 out of 3", B=1, n=3, T=3)(frechet_case)
suite.case("thorough", bounds="1 example, slates of 3 out of 4", B=1, n=4, T=3)(frechet_case)
suite.case("thorough", bounds="2 examples, slates of 2 out of 3", B=2, n=3, T=2)(frechet_case)


def autoregressive_case(env, B, n, T, some=None):
    """the autoregressive decoder is fed what was placed so far, in order; scoring the slate repeats the probabilities it was drawn with"""
    st, src = env.const([[1.5], [-0.5]][:B]), env.real("items", B, n, 1, lo=-2, hi=2)
    net = build(env, Arch.AUTOREGRESSIVE, n, T, 2)
    encoded(env, net, B, n, st, src, 2)
    mem = env.L(net.seq2slate.encode(st, src))
    b0 = batch(st, src)
    pick, seen, out = pinned(env, B, n, T, lambda: net(b0, mode=Mode.RANK_MODE, tgt_seq_len=T, greedy=False), some)
    again = batch(st, src, action=torch.tensor(pick))
    S, C = env.L(st), env.L(src)
    W, Bi = [r[:2] + r[3:] for r in PW[:2]], PB
    seq = env.L(net(again, mode=Mode.PER_SEQ_LOG_PROB_MODE).log_probs.exp())
    sym = env.L(net(again, mode=Mode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs.exp())
    env.eq(out.ranked_tgt_out_idx, [[x + 2 for x in p] for p in pick], "the slate holds what was drawn")
    for b in range(B):
        q, full = [0, 0], 1
        for l in range(T):
            c = 0 if l == 0 else C[b][pick[b][l - 1]][0]
            e = [SW[0][0] * S[b][0] + SB[0]] + [CW[0][0] * c + CB[0]] + [l]
            z = [ssum(w * x for w, x in zip(W[k], e)) + Bi[k] for k in range(2)]
            q = [x + ite(y > 0, y, 0) for x, y in zip(q, z)]
            sc = [wrap(env.net_eval("dec", [unwrap(v) if env.sym else v for v in q + r], 1, -4, 4)[0]) for r in mem[b]]
            P = softmax_over(sc, [j not in pick[b][:l] for j in range(n)])
            env.eq(env.L(seen[l])[b], [0, 0] + P, "drawing probability", 1e-4)
            env.eq(env.L(out.ranked_per_symbol_probs)[b][l], [0, 0] + P, "reported symbol probability", 1e-4)
            for j in range(n):
                if j in pick[b][:l]:
                    env.close([sym[b][l][j + 2]], [0], "symbol probability when scored", 1e-6)
                else:
                    env.eq(sym[b][l][j + 2], smax(P[j], 1e-40), "symbol probability when scored", 1e-4)
            full = full * P[pick[b][l]]
        env.eq(env.L(out.ranked_per_seq_probs)[b][0], smax(full, 1e-40), "reported slate probability", 1e-4)
        env.eq(seq[b][0], smax(full, 1e-40), "slate probability when scored", 1e-4)


suite.case(bounds="1 example, two slates of 2 out of 3", B=1, n=3, T=2, some=[[2, 0], [0, 1]])(autoregressive_case)
suite.case(bounds="2 examples, one slate of 2 out of 2", B=2, n=2, T=2, some=[[1, 0]])(autoregressive_case)
suite.case("thorough", bounds="1 example, slates of 2 out of 3", B=1, n=3, T=2)(autoregressive_case)
suite.case("thorough", bounds="2 examples, slates of 2 out of 2", B=2, n=2, T=2)(autoregressive_case)


def drawn_case(env, B, n, T):
    """whatever the random draws, a slate names T different candidates of its own list"""
    st, src, mem = inputs(env, B, n)
    net = build(env, Arch.FRECHET_SORT, n, T)
    encoded(env, net, B, n, st, src)
    out = env.L(net(batch(st, src), mode=Mode.RANK_MODE, tgt_seq_len=T, greedy=False).ranked_tgt_out_idx)
    for row in out:
        env.check(len(row) == T, "slate length")
        for l in range(T):
            env.check(sand(row[l] >= 2, row[l] < n + 2), "only candidates are placed")
            for k in range(l):
                env.check(row[k] != row[l], "no candidate twice")


suite.case(bounds="2 examples, slates of 2 out of 3", B=2, n=3, T=2)(drawn_case)


def greedy_case(env, B, n, T, arch):
    """greedy decoding and encoder-score ranking list the candidates from the best score down"""
    st, src, mem = inputs(env, B, n)
    net = build(env, Arch[arch], n, T)
    sc = encoded(env, net, B, n, st, src)
    for b in range(B):
        for i in range(n):
            for j in range(i):
                env.assume(sor(sc[b][i] > sc[b][j] + 0.01, sc[b][j] > sc[b][i] + 0.01))
    real = torch.max

    def decided(x, dim):
        v, i = real(x, dim=dim)
        return v, torch.tensor([int(j) for j in i.tolist()])

    with env.patch(torch, "max", decided):
        out = net(batch(st, src), mode=Mode.RANK_MODE, tgt_seq_len=None if T == n else T, greedy=True)
    env.shape(out.ranked_tgt_out_idx, (B, T), "slate")
    env.shape(out.ranked_per_symbol_probs, (B, T, n + 2), "per-symbol probabilities")
    got, sym, seq = env.L(out.ranked_tgt_out_idx), env.L(out.ranked_per_symbol_probs), env.L(out.ranked_per_seq_probs)
    for b in range(B):
        for l in range(T):
            for j in range(n):
                rank = ssum(ite(sc[b][i] > sc[b][j], 1, 0) for i in range(n))
                env.check(ite(got[b][l] == j + 2, 1, 0) == ite(rank == l, 1, 0), "candidates from the best score down")
                if arch == "ENCODER_SCORE":
                    env.eq(sym[b][l][j + 2], ite(rank == l, 1, 0), "a deterministic ranking has probability one")
        if arch == "ENCODER_SCORE":
            env.eq(seq[b][0], 1, "slate probability")
        else:
            w = 1
            for l in range(T):
                w = w * pick_at(sym[b][l], got[b][l])
            env.eq(seq[b][0], smax(w, 1e-40), "slate probability", 1e-4)


for arch in ("FRECHET_SORT", "ENCODER_SCORE"):
    suite.case(bounds="1 example, 2 out of 3 candidates, distinct scores", B=1, n=3, T=2, arch=arch)(greedy_case)
    suite.case(bounds="2 examples, 2 candidates, distinct scores", B=2, n=2, T=2, arch=arch)(greedy_case)
suite.case("thorough", bounds="1 example, 3 out of 4 candidates", B=1, n=4, T=3, arch="ENCODER_SCORE")(greedy_case)


def scores_case(env, B, n, T):
    """one score per example and slate position: the score of the candidate placed there"""
    st, src, mem = inputs(env, B, n)
    net = build(env, Arch.ENCODER_SCORE, n, T)
    act = env.ints("act", B, T, lo=0, hi=n - 1)
    out = net(batch(st, src, action=act), mode=Mode.ENCODER_SCORE_MODE).encoder_scores
    env.shape(out, (B, T), "scores")
    A, o = env.L(act), env.L(out.reshape(B, T))
    for b in range(B):
        for l in range(T):
            env.eq(o[b][l], pick_at([score(r) for r in mem[b]], A[b][l]), "score of the placed candidate", 1e-5)


for B, n, T in ((2, 3, 2), (1, 3, 2), (2, 2, 1)):
    suite.case(bounds=f"{B} examples, {T} of {n} candidates", B=B, n=n, T=T)(scores_case)


def from_input_case(env, B, n, T, opt):
    """derived decoder inputs: the slate shifted by one behind the start symbol, indices offset by two"""
    st, src = env.real("state", B, 2, lo=-2, hi=2), env.real("items", B, n, 2, lo=-2, hi=2)
    act, oact = env.ints("act", B, T, lo=0, hi=n - 1), env.ints("opt", B, T, lo=0, hi=n - 1)
    x = batch(st, src, action=act, **(dict(optimal_action=oact) if opt else {}))
    C = env.L(src)
    env.eq(x.state.float_features, env.L(st), "state")
    env.eq(x.src_seq.float_features, C, "candidates")
    env.eq(x.src_in_idx, [[j + 2 for j in range(n)]] * B, "candidate indices")
    env.eq(x.src_src_mask, [[[1] * n] * n] * B, "candidate mask")
    env.eq(x.tgt_tgt_mask, [[[1 if k <= l else 0 for k in range(T)] for l in range(T)]], "slate mask")
    for pre, a, on in (("tgt", act, True), ("optim_tgt", oact, opt)):
        f = {k: getattr(x, f"{pre}_{k}") for k in ("in_idx", "out_idx", "in_seq", "out_seq")}
        if not on:
            env.check(all(v is None for v in f.values()), "nothing is derived from an action that was not given")
            continue
        A = env.L(a)
        env.eq(f["out_idx"], [[v + 2 for v in r] for r in A], f"{pre} output indices")
        env.eq(f["in_idx"], [[1] + [v + 2 for v in r[:-1]] for r in A], f"{pre} input indices")
        rows = [[[pick_at([c[k] for c in C[b]], v) for k in range(2)] for v in A[b]] for b in range(B)]
        env.eq(f["out_seq"].float_features, rows, f"{pre} output items")
        env.eq(f["in_seq"].float_features, [[[0, 0]] + r[:-1] for r in rows], f"{pre} input items")


suite.case(bounds="2 examples, 2 of 3 candidates", B=2, n=3, T=2, opt=True)(from_input_case)
suite.case(bounds="1 example, 3 of 3 candidates", B=1, n=3, T=3, opt=False)(from_input_case)


def decoder_case(env, B, T, n):
    """the last decoder layer reports the weights with which it attends to the items, behind two reserved zeros; earlier layers run first"""
    dec = s2s.DecoderPyTorch(2, 1, 2, 2)
    tgt, mem = env.real("tgt", B, T, 2, lo=-2, hi=2), env.real("mem", B, n, 2, lo=-2, hi=2)
    tm, sm = torch.ones(B, T, T), torch.zeros(B, T, n)
    log = []

    class First(nn.Module):
        def forward(self, t, m, tgt_mask, memory_mask):
            env.check(tgt_mask is tm and memory_mask is sm, "masks reach every layer")
            env.eq(m.transpose(0, 1), env.L(mem), "memory reaches every layer")
            return t * 2 + t.sum(dim=0, keepdim=True)

    class Self(nn.Module):
        def forward(self, q, k, v, attn_mask):
            env.check(attn_mask is tm, "self-attention mask")
            log.append("self")
            return q + 2 * k - v.sum(dim=0, keepdim=True), None

    class Norm(nn.Module):
        def forward(self, x):
            return x + 1

    class Src(nn.Module):
        def forward(self, q, k, v, attn_mask):
            env.check(attn_mask is sm, "mask over items")
            env.eq(v, env.L(k), "memory")
            return None, torch.bmm(q.transpose(0, 1), k.permute(1, 2, 0))

    last = dec.layers[1]
    dec.layers[0] = First()
    last.self_attn, last.norm1, last.multihead_attn = Self(), Norm(), Src()
    got = dec(tgt, mem, sm, tm)
    env.shape(got, (B, T, n + 2), "decoder output")
    G, X, M = env.L(got), env.L(tgt), env.L(mem)
    for b in range(B):
        y = [[2 * X[b][l][k] + ssum(X[b][i][k] for i in range(T)) for k in range(2)] for l in range(T)]
        z = [[y[l][k] + (3 * y[l][k] - ssum(y[i][k] for i in range(T))) + 1 for k in range(2)] for l in range(T)]
        for l in range(T):
            env.eq(G[b][l], [0, 0] + [ssum(z[l][k] * M[b][j][k] for k in range(2)) for j in range(n)], "decoder output", 1e-5)


suite.case(bounds="2 examples, 2 positions, 3 items, 2 layers", B=2, T=2, n=3)(decoder_case)
