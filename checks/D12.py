"""Action samplers, scorers and random policies: what is drawn, with which probability, and what is reported about it."""
import math
import gym
import numpy as np
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.random_policies import ContinuousRandomPolicy, DiscreteRandomPolicy, MultiDiscreteRandomPolicy
from reagent.gym.policies.samplers.discrete_sampler import EpsilonGreedyActionSampler, GreedyActionSampler, SoftmaxActionSampler
from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.gym.policies.scorers.discrete_scorer import (apply_possible_actions_mask, discrete_dqn_scorer, discrete_dqn_serving_scorer,
                                                          parametric_dqn_scorer, parametric_dqn_serving_scorer)
from reagent.gym.policies.scorers.slate_q_scorer import slate_q_scorer, slate_q_serving_scorer
from checks.common import *
from checks.D02 import softmax_spec

suite = Suite("D12", ["scores lie in [-8, 8]", "at least one action is possible"])


def softmax(row, temp=1.0, mask=None):
    return softmax_spec(row, mask or [1] * len(row), temp)


def proportional(env, w, p, label):
    """the weights of a draw describe the distribution p"""
    t = ssum(w)
    env.lt(0, t, label + ": positive total weight")
    for i, (a, b) in enumerate(zip(w, p)):
        env.eq(a, b * t, f"{label}[{i}]")


def near(env, x, y, label):
    env.close([env.L(x)], [y], label, 1e-5)


def drawn(env, out, B, A, label="action"):
    """the action is one-hot at the drawn index; returns the drawn indices"""
    idx = [i for d in env.draws("multinomial") for row in d for i in (row if isinstance(row, list) else [row])][-B:]
    act = env.L(out.action)
    env.shape(out.action, (B, A), label)
    for b in range(B):
        for a in range(A):
            env.eq(act[b][a], ite(idx[b] == a, 1, 0), f"{label} is one-hot at the drawn index")
    return idx


def softmax_case(env, B, A, temp):
    s = env.real("s", B, A, lo=-8, hi=8)
    a, ai = one_hot(env, "a", B, A)
    S0 = env.L(s)
    sampler = SoftmaxActionSampler(temperature=temp)
    P = [softmax(row, temp) for row in S0]
    out = sampler.sample_action(s)
    idx = drawn(env, out, B, A)
    for b in range(B):
        proportional(env, env.params("multinomial")[-1][b], P[b], "draw probability")
        env.eq(out.log_prob[b], pick_at([slog(p) for p in P[b]], idx[b]), "log-probability of the drawn action")
    lp = sampler.log_prob(s, a)
    env.eq(lp, [pick_at([slog(p) for p in P[b]], ai[b]) for b in range(B)], "log-probability of a given action")
    env.eq(sampler.entropy(s), -ssum(p * slog(p) for row in P for p in row) / B, "mean entropy")
    env.eq(s, S0, "scores are left alone")


for t in (1.0, 0.5, 4.0):
    suite.case(bounds="2 states, 2 actions", B=2, A=2, temp=t)(softmax_case)
suite.case(bounds="1 state, 3 actions", B=1, A=3, temp=2.0)(softmax_case)


def greedy_case(env, B, A):
    s = env.real("s", B, A)
    a, ai = one_hot(env, "a", B, A)
    S0 = env.L(s)
    sampler = GreedyActionSampler()
    out = sampler.sample_action(s)
    act = env.L(out.action)
    for b in range(B):
        best = smax(*S0[b])
        env.eq(ssum(act[b]), 1, "one action")
        env.eq(ssum(x * y for x, y in zip(act[b], S0[b])), best, "its score is the highest")
        for x in act[b]:
            env.check(sor(x == 0, x == 1), "one-hot")
    env.eq(out.log_prob, [0] * B, "the greedy choice is certain")
    lp = sampler.log_prob(s, a)
    for b in range(B):
        mine = ite(argmax_first(S0[b]) == ai[b], 1, 0)
        env.eq(lp[b], ite(mine == 1, 0.0, -math.inf), "log-probability of a given action")
    env.eq(s, S0, "scores are left alone")


suite.case(bounds="2 states, 2 actions", B=2, A=2)(greedy_case)
suite.case(bounds="1 state, 3 actions", B=1, A=3)(greedy_case)


def eps_case(env, B, A, eps):
    s = env.real("s", B, A)
    a, ai = one_hot(env, "a", B, A)
    S0 = env.L(s)
    sampler = EpsilonGreedyActionSampler(epsilon=eps)
    out = sampler.sample_action(s)
    idx = drawn(env, out, B, A)
    lp = env.L(sampler.log_prob(s, a))
    for b in range(B):
        g = argmax_first(S0[b])
        P = [ite(g == k, 1 - eps, 0) + eps / A for k in range(A)]
        proportional(env, env.params("multinomial")[0][b], P, "draw probability")
        env.eq(out.log_prob[b], pick_at([slog(p) for p in P], idx[b]), "log-probability of the drawn action")
        env.eq(lp[b], pick_at([slog(p) for p in P], ai[b]), "log-probability of a given action")
    env.eq(s, S0, "scores are left alone")


suite.case(bounds="2 states, 2 actions", B=2, A=2, eps=0.5)(eps_case)
suite.case(bounds="1 state, 4 actions", B=1, A=4, eps=0.25)(eps_case)


def decay_case(env, steps):
    e, d, m = env.num("eps", 0, 1), env.num("decay", 0, 1), env.num("min", 0, 1)
    env.assume(m <= d)
    sampler = EpsilonGreedyActionSampler(epsilon=0.5, epsilon_decay=d, minimum_epsilon=m)
    sampler.epsilon = e
    for _ in range(steps):
        sampler.update()
        e = smax(e * d, m)
        env.eq(sampler.epsilon, e, "decayed exploration rate")


suite.case(bounds="3 updates", steps=3)(decay_case)


def topk_case(env, B, N, k):
    s = env.real("s", B, N)
    out = TopKSampler(k).sample_action(s)
    act = env.L(out.action)
    S0 = env.L(s)
    env.shape(out.action, (B, k), "slate")
    for b in range(B):
        v = [pick_at(S0[b], i) for i in act[b]]
        for i in range(k):
            env.check(sand(act[b][i] >= 0, act[b][i] < N), "an index")
            for j in range(i):
                env.check(act[b][i] != act[b][j], "no candidate twice")
                env.le(v[i], v[j], "best first")
        for c in range(N):
            env.check(sor(S0[b][c] <= v[-1], *[x == c for x in act[b]]), "nothing better is left out")
    env.eq(out.log_prob, [[0]] * B, "certain")


suite.case(bounds="2 states, 3 candidates, 2 chosen", B=2, N=3, k=2)(topk_case)
suite.case(bounds="1 state, 3 candidates, 3 chosen", B=1, N=3, k=3)(topk_case)


def mask_case(env, A, dist):
    """scores of the network, forbidden actions at minus infinity; greedy and softmax never pick those"""
    pm = [bool(env.flag(f"pm{i}")) for i in range(A)]          # forks: the mask is a numpy array
    env.assume(any(pm))
    s = feat(env.real("s", 1, 1))
    q = env.net("q", (A, 2) if dist else A, bound=(-8, 8))
    score = discrete_dqn_scorer(q)
    raw = env.net_eval("q", [env.L(s.float_features)[0][0]] if not env.sym else [unwrap(env.L(s.float_features)[0][0])], A * (2 if dist else 1), -8, 8)
    raw = [wrap(x) for x in raw]
    Q = [(raw[2 * i] + raw[2 * i + 1]) / 2 for i in range(A)] if dist else raw
    for mask in (None, pm):
        got = env.L(score(s) if mask is None else score(s, np.array(mask)))[0]
        for i in range(A):
            env.eq(got[i], Q[i] if mask is None or mask[i] else -math.inf, "score")
    # the policy as a whole
    pol = Policy(score, GreedyActionSampler())
    act = env.L(pol.act(s, np.array(pm)).action)[0]
    env.eq(ssum(x * ite(pm[i], Q[i], 0) for i, x in enumerate(act)), masked_max(Q, [1 if m else 0 for m in pm]), "greedy over possible actions")
    env.check(sand(*[sor(pm[i], act[i] == 0) for i in range(A)]), "greedy action is possible")
    out = Policy(score, SoftmaxActionSampler(temperature=2.0)).act(s, np.array(pm))
    P = softmax(Q, 2.0, [1 if m else 0 for m in pm])
    idx = drawn(env, out, 1, A)
    proportional(env, env.params("multinomial")[-1][0], P, "draw probability")
    env.eq(out.log_prob[0], pick_at([slog(p) if not isinstance(p, int) else -math.inf for p in P], idx[0]), "log-probability of the drawn action")
    env.check(sor(*[sand(idx[0] == i, pm[i]) for i in range(A)]), "drawn action is possible")


suite.case(bounds="1 state, 3 actions, any mask", A=3, dist=False)(mask_case)
suite.case(bounds="1 state, 2 actions, 2 atoms, any mask", A=2, dist=True)(mask_case)


def random_case(env, A):
    pm = [bool(env.flag(f"pm{i}")) for i in range(A)]
    env.assume(any(pm))
    obs = feat(env.real("s", 1, 2))
    for mask in (None, pm):
        out = DiscreteRandomPolicy(A).act(obs, None if mask is None else np.array(mask))
        idx = drawn(env, out, 1, A)
        n = A if mask is None else sum(mask)
        proportional(env, env.params("multinomial")[-1][0], [1 / n if mask is None or m else 0 for m in pm], "draw probability")
        near(env, out.log_prob[0], math.log(1 / n), "log-probability of the drawn action")


suite.case(bounds="3 actions, any mask", A=3)(random_case)


def multi_case(env, B):
    obs = feat(env.real("s", B, 2))
    out = MultiDiscreteRandomPolicy([2, 4]).act(obs)
    env.shape(out.action, (B, 2), "action")
    env.shape(out.log_prob, (B, 1), "log-probability")
    w = env.params("multinomial")
    d = [[x for row in z for x in (row if isinstance(row, list) else [row])] for z in env.draws("multinomial")]
    act = env.L(out.action)
    for k, n in enumerate((2, 4)):
        for row in w[k]:
            proportional(env, row, [1 / n] * n, "draw probability")
        for b in range(B):
            env.eq(act[b][k], d[k][b], "component drawn from its own range")
    for b in range(B):
        near(env, out.log_prob[b][0], math.log(1 / 8), "log-probability of the whole action")


suite.case(bounds="2 states, components of size 2 and 4", B=2)(multi_case)


def cont_case(env, B, D):
    lo, hi = [env.num(f"lo{i}", -4, 4) for i in range(D)], [env.num(f"hi{i}", -4, 4) for i in range(D)]
    for a, b in zip(lo, hi):
        env.assume(a + 0.125 <= b)
    obs = feat(env.real("s", B, 2))
    low, high = env.mk([unwrap(x) if env.sym else x for x in lo]), env.mk([unwrap(x) if env.sym else x for x in hi])
    out = ContinuousRandomPolicy(low, high).act(obs)
    u = env.draws("uniform")[-1]
    act = env.L(out.action)
    for b in range(B):
        for i in range(D):
            env.eq(act[b][i], lo[i] + u[b][i] * (hi[i] - lo[i]), "uniform between the bounds")
        env.eq(out.log_prob[b], -ssum(slog(h - l) for l, h in zip(lo, hi)), "log-density of the whole action")


suite.case(bounds="2 states, 2 dimensions, any bounds", B=2, D=2)(cont_case)


class Pair(torch.nn.Module):
    """a two-input value network: training-time and serving signatures"""

    def __init__(self, env):
        super().__init__()
        self.net = env.net("q", 1, bound=(-8, 8))

    def forward(self, state, action):
        return self.net(state.float_features, action.float_features)


class ServingPair(torch.nn.Module):
    def __init__(self, env):
        super().__init__()
        self.net = env.net("q", 1, bound=(-8, 8))
        self.presence = []

    def forward(self, state_with_presence, action_with_presence):
        self.presence += [state_with_presence[1], action_with_presence[1]]
        return ["Q"], self.net(state_with_presence[0], action_with_presence[0])


def q_of(env, *xs):
    return wrap(env.net_eval("q", [unwrap(x) if env.sym else x for x in xs], 1, -8, 8)[0])


def parametric_case(env, B, A):
    s = env.real("s", B, 2)
    S0 = env.L(s)
    serving = ServingPair(env)
    for got in (parametric_dqn_scorer(A, Pair(env))(feat(s)), parametric_dqn_serving_scorer(A, serving)((s, torch.ones(B, 2)))):
        env.shape(got, (B, A), "scores")
        env.eq(got, [[q_of(env, *S0[b], *[1 if j == i else 0 for j in range(A)]) for i in range(A)] for b in range(B)], "value of (state, action)")
    for p in serving.presence:
        env.check((p == 1).all().item(), "every feature is marked present")


suite.case(bounds="2 states of 2 features, 3 actions", B=2, A=3)(parametric_case)


def slate_case(env, B, C):
    s, docs, val = env.real("s", B, 1), env.real("d", B, C, 1), env.real("v", B, C, lo=-4, hi=4)
    S0, D0, V0 = env.L(s), env.L(docs), env.L(val)
    mk = lambda: rlt.FeatureData(float_features=s, candidate_docs=rlt.DocList(docs, torch.ones(B, C, dtype=torch.bool), val))
    for got in (slate_q_scorer(C, Pair(env))(mk()), slate_q_serving_scorer(C, ServingPair2(env))(mk())):
        env.eq(got, [[p * q_of(env, S0[b][0], D0[b][c][0]) for c, p in enumerate(softmax(V0[b]))] for b in range(B)], "value weighted by choice probability")


class ServingPair2(ServingPair):
    def forward(self, a, b):
        return super().forward(a, b)


suite.case(bounds="2 states, 2 candidates", B=2, C=2)(slate_case)
