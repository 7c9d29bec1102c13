"""Frechet sort: which ranking a perturbation gives, its probability, and top-k truncation."""
from torch.distributions import Gumbel
from reagent.samplers.frechet import FrechetSort
from checks.common import *

suite = Suite("D15", ["log scores lie in [-4, 4], standard Gumbel draws in [-8, 8]; perturbed scores differ by at least 1/128"])


def plackett_luce(logs, perm, p, shape):
    """log-probability that sampling without replacement proportionally to score^shape starts with perm[:p]"""
    w = [sexp(shape * x) for x in logs]
    out = 0
    for i in range(p):
        out = out + shape * pick_at(logs, perm[i]) - slog(ssum(pick_at(w, j) for j in perm[i:]))
    return out


def sort_case(env, B, N, shape, topk=None, equiv=None, log_scores=True):
    """the sampled order sorts score + Gumbel noise of scale 1/shape"""
    s = env.real("s", B, N, lo=-4, hi=4) if log_scores else env.real("s", B, N, lo=0.0625, hi=8)
    S0 = env.L(s)
    g = env.real("g", B, N, lo=-8, hi=8)
    G = env.L(g)
    fs = FrechetSort(shape=shape, topk=topk, equiv_len=equiv, log_scores=log_scores)
    for b in range(B):        # ties have no defined order, near-ties depend on rounding
        for i in range(N):
            for j in range(i):
                key = lambda c: (S0[b][c] if log_scores else slog(S0[b][c])) + G[b][c] / shape
                env.assume(sabs(key(i) - key(j)) >= 0.0078125)
    draw = lambda self, sh=(): self.loc + self.scale * g.reshape(sh)
    with env.patch(Gumbel, "sample", draw), env.patch(Gumbel, "rsample", draw):
        out = fs.sample_action(s)
    k = topk or N
    env.shape(out.action, (B, k), "ranking")
    env.shape(out.log_prob, (B,), "log-probability")
    act = env.L(out.action)
    for b in range(B):
        logs = S0[b] if log_scores else [slog(x) for x in S0[b]]
        key = [l + x / shape for l, x in zip(logs, G[b])]
        for i in range(k):
            env.check(sand(act[b][i] >= 0, act[b][i] < N), "an item")
            for j in range(i):
                env.check(act[b][i] != act[b][j], "no item twice")
        v = [pick_at(key, i) for i in act[b]]
        for i in range(k - 1):
            env.le(v[i + 1], v[i], "perturbed scores descend")
        for c in range(N):
            env.check(sor(key[c] <= v[-1], *[x == c for x in act[b]]), "nothing better is left out")
        if k == N:
            env.eq(out.log_prob[b], plackett_luce(logs, act[b], equiv or N, shape), "log-probability of the sampled ranking")
    env.eq(s, S0, "scores are left alone")


for shape in (1.0, 2.0, 0.5):
    suite.case(bounds="1 list of 2 items", B=1, N=2, shape=shape)(sort_case)
suite.case(bounds="2 lists of 2 items", B=2, N=2, shape=1.0)(sort_case)
suite.case(bounds="1 list of 3 items", B=1, N=3, shape=1.0)(sort_case)
suite.case(bounds="1 list of 3 items, raw scores", B=1, N=3, shape=2.0, log_scores=False)(sort_case)
suite.case(bounds="2 lists of 3 items, best 2 or 1", B=2, N=3, shape=1.0, topk=2)(sort_case)
suite.case(bounds="2 lists of 3 items, best 2 or 1", B=2, N=3, shape=2.0, topk=1)(sort_case)


def prob_case(env, B, N, shape, equiv=None, topk=None, log_scores=True):
    s = env.real("s", B, N, lo=-4, hi=4) if log_scores else env.real("s", B, N, lo=0.0625, hi=8)
    S0 = env.L(s)
    perm = env.ints("perm", B, N, lo=0, hi=N - 1)
    P = env.L(perm)
    for row in P:
        for i in range(N):
            for j in range(i):
                env.assume(row[i] != row[j])
    fs = FrechetSort(shape=shape, topk=topk, equiv_len=equiv, log_scores=log_scores)
    got = env.L(fs.log_prob(s, perm))
    logs = S0 if log_scores else [[slog(x) for x in r] for r in S0]
    p = equiv if equiv is not None else topk if topk is not None else N
    for b in range(B):
        env.eq(got[b], plackett_luce(logs[b], P[b], p, shape), "log-probability of a ranking up to the equivalent prefix")
    if B == 1:
        env.eq(fs.log_prob(s[0], perm[0])[0], plackett_luce(logs[0], P[0], p, shape), "a single list")


for kw in (dict(N=2, shape=1.0), dict(N=3, shape=2.0), dict(N=3, shape=1.0, equiv=1), dict(N=3, shape=0.5, topk=2), dict(N=3, shape=1.0, topk=3, equiv=2),
           dict(N=2, shape=2.0, log_scores=False)):
    suite.case(bounds="1 list of 2-3 items, any ranking", B=1, **kw)(prob_case)
suite.case(bounds="2 lists of 2 items", B=2, N=2, shape=1.0)(prob_case)
suite.case(tier="thorough", bounds="1 list of 4 items", B=1, N=4, shape=1.0)(prob_case)


def total_case(env, N, shape):
    """probabilities of all rankings sum to one"""
    import itertools
    s = env.real("s", 1, N, lo=-2, hi=2)
    fs = FrechetSort(shape=shape, log_scores=True)
    tot = ssum(sexp(env.L(fs.log_prob(s, torch.tensor([p])))[0]) for p in itertools.permutations(range(N)))
    env.eq(tot, 1, "total probability")


suite.case(bounds="2 items", N=2, shape=2.0)(total_case)
suite.case(bounds="3 items", N=3, shape=1.0)(total_case)


def pad_case(env, N, shape):
    """the index one past the last score stands for padding: it costs nothing and crowds nobody out"""
    s = env.real("s", 1, N, lo=-4, hi=4)
    S0 = env.L(s)[0]
    fs = FrechetSort(shape=shape, log_scores=True)
    got = env.L(fs.log_prob(s, torch.tensor([[1] + [N] * (N - 1)])))[0]
    env.eq(got, 0, "a lone item ahead of padding is certain")
    if N == 3:
        got = env.L(fs.log_prob(s, torch.tensor([[2, 0, N]])))[0]
        env.eq(got, plackett_luce(S0, [2, 0], 2, shape), "padding at the end changes nothing")


suite.case(bounds="3 positions", N=3, shape=2.0)(pad_case)


def args_case(env):
    env.check(env.raises(lambda: FrechetSort(topk=2, equiv_len=3), ValueError), "equivalence longer than the list is refused")
    s = env.real("s", 1, 2, lo=-1, hi=1)
    fs = FrechetSort(log_scores=True)
    env.check(env.raises(lambda: fs.log_prob(s, torch.tensor([[0, 1, 2]])), ValueError), "more ranks than scores are refused")
    env.check(env.raises(lambda: fs.log_prob(s, torch.tensor([[0]])), NotImplementedError), "short rankings are refused")


suite.case(bounds="argument checks")(args_case)
