"""Policy gradient: discounted returns, whitening, REINFORCE and PPO losses and the updates they cause."""
import math
import types as _types
from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
from reagent.optimizer.union import Optimizer__Union, classes
from reagent.training.ppo_trainer import PPOTrainer
from reagent.training.reinforce import Reinforce, ReinforceParams
from reagent.training.utils import discounted_returns, whiten
from checks.common import *
from checks.D02 import softmax_spec

suite = Suite("D11", ["scores of the policy lie in [-4, 4]", "plain gradient descent with step size 1 makes the update equal to the gradient",
                      "whitened returns are not all equal", "rewards lie in [-1000, 1000]"])


def returns(rs, gamma, clip=None):
    out, acc = [], 0
    for r in reversed(rs):
        acc = (r if clip is None else smin(r, clip)) + gamma * acc
        out.insert(0, acc)
    return out


def returns_case(env, T, gamma):
    r = env.real("r", T)
    R = env.L(r)
    env.eq(discounted_returns(r, gamma), returns(R, gamma), "discounted reward to go")
    env.eq(r, R, "rewards are left as they were")


for g in (0.0, 0.5, 1.0, 0.75):
    suite.case(bounds="1, 2 and 4 steps", T=4, gamma=g)(returns_case)
suite.case(bounds="1 step", T=1, gamma=0.5)(returns_case)


def std(xs):
    m = ssum(xs) / len(xs)
    return ssqrt(ssum((x - m) * (x - m) for x in xs) / (len(xs) - 1))


EPS = 2.220446049250313e-16


def whiten_case(env, T, mean):
    x = env.real("x", T)
    X = env.L(x)
    env.assume(X[0] > X[1])
    m = ssum(X) / T if mean else 0
    env.eq(whiten(x.clone(), subtract_mean=mean), [(v - m) / (std(X) + EPS) for v in X], "whitened")


for mean in (True, False):
    suite.case(bounds="3 values", T=3, mean=mean)(whiten_case)


def sgd():
    return Optimizer__Union(SGD=classes["SGD"](lr=1.0))


class Scorer(torch.nn.Module):
    def __init__(self, env, A):
        super().__init__()
        self.net = env.net("score", A, bound=(-4, 4))

    def forward(self, state, mask=None):
        s = self.net(state)
        return s if mask is None else s + (1 - mask) * -1e10


def trajectory(env, tag, T, A, mask):
    s = env.real("s" + tag, T, 1)
    a, ai = one_hot(env, "a" + tag, T, A)
    r, lp = env.real("r" + tag, T, lo=-1000, hi=1000), env.real("lp" + tag, T, lo=-4, hi=0)
    return rlt.PolicyGradientInput(state=feat(s), action=a, reward=r, log_prob=lp, possible_actions_mask=torch.ones(T, A) if mask else None), ai


def advantage(env, b, gamma, clip, normalize, mean, clampmin, value):
    g = returns(env.L(b.reward), gamma, clip)
    if normalize:
        m = ssum(g) / len(g) if mean else 0
        sd = std(g)
        g = [(x - m) / (sd + EPS) for x in g]
    if clampmin:
        g = [smax(x, 0) for x in g]
    return g


def pg_case(env, T, A, gamma=0.5, off=False, clip=1e6, ratio=1e6, normalize=False, mean=True, clampmin=False, value=False, n=1, freq=1, mask=False):
    scorer = Scorer(env, A)
    actor = _types.SimpleNamespace(scorer=scorer, sampler=SoftmaxActionSampler())
    v = env.net("v", 1) if value else None
    tr = Reinforce(actor, ReinforceParams(gamma=gamma, optimizer=sgd(), optimizer_value_net=sgd(), off_policy=off, reward_clip=clip, clip_param=ratio,
                                          normalize=normalize, subtract_mean=mean, offset_clamp_min=clampmin, update_freq=freq), value_net=v)
    grads, vgrads = [], []
    for k in range(n):
        b, ai = trajectory(env, str(k), T, A, mask)
        if normalize:
            g = returns(env.L(b.reward), gamma, clip)
            env.assume(sor(*[g[0] != x for x in g[1:]]))
        before = env.L(scorer.net.theta)
        G = advantage(env, b, gamma, clip, normalize, mean, clampmin, value)
        P = [softmax_spec(row, [1] * A, 1.0) for row in env.L(scorer.net(b.state))]
        LP = env.L(b.log_prob)
        V = [x[0] for x in env.L(v(b.state))] if value else [0] * T
        grad = [0] * A
        for t in range(T):
            adv = G[t] - V[t]
            if off:
                env.assume(slog(pick_at(P[t], ai[t])) - LP[t] < 13)     # a consequence of LP >= -4, spelled out for the solver
                adv = adv * (pick_at(P[t], ai[t]) / sexp(LP[t]))
            for j in range(A):
                grad[j] = grad[j] - adv * (ite(ai[t] == j, 1, 0) - P[t][j])
        grads.append(grad)
        vgrads.append(ssum(2 * (V[t] - G[t]) for t in range(T)) / T)
        tr.train(b)
        after = env.L(scorer.net.theta)
        if k + 1 < n:
            env.eq(after, before, "the policy waits for the configured number of trajectories")
    env.eq(scorer.net.theta, [-ssum(g[j] for g in grads) / n for j in range(A)], "policy step")
    if value:
        env.eq(v.theta, [-ssum(vgrads) / n], "baseline step")


for kw in [dict(), dict(gamma=0.0), dict(clip=0.5), dict(value=True), dict(clampmin=True), dict(mask=True)]:
    suite.case(bounds="1 trajectory of 2 steps, 2 actions", T=2, A=2, **kw)(pg_case)
suite.case(bounds="1 trajectory of 2 steps, 2 actions", T=2, A=2, normalize=True)(pg_case)
suite.case(bounds="1 trajectory of 2 steps, 2 actions", T=2, A=2, normalize=True, mean=False)(pg_case)
suite.case(bounds="1 trajectory of 2 steps, 2 actions, importance weights", T=2, A=2, off=True)(pg_case)
suite.case(bounds="2 trajectories of 1 step, 2 actions", T=1, A=2, n=2, freq=3)(pg_case)
suite.case(tier="thorough", bounds="1 trajectory of 3 steps, 3 actions", T=3, A=3)(pg_case)


def off_case(env, ratio):
    """importance weights are cut at the configured ratio"""
    scorer = Scorer(env, 2)
    tr = Reinforce(_types.SimpleNamespace(scorer=scorer, sampler=SoftmaxActionSampler()),
                   ReinforceParams(gamma=0.5, optimizer=sgd(), off_policy=True, clip_param=ratio, normalize=False))
    b, ai = trajectory(env, "", 1, 2, False)
    P = softmax_spec(env.L(scorer.net(b.state))[0], [1, 1], 1.0)
    w = pick_at(P, ai[0]) / sexp(env.L(b.log_prob)[0])
    lw = slog(pick_at(P, ai[0])) - env.L(b.log_prob)[0]
    tr.train(b)
    for j in range(2):
        g = -env.L(b.reward)[0] * w * (ite(ai[0] == j, 1, 0) - P[j])
        got = env.L(scorer.net.theta)[j]
        env.check(implies(lw < math.log(ratio) - 1e-3, eqv(got, -g)), "an importance weight below the ratio counts as it is")
        env.check(implies(lw > math.log(ratio) + 1e-3, eqv(got, 0)), "a larger one is cut off and passes no gradient")


def eqv(a, b):
    d = a - b
    return sand(d < 1e-3, d > -1e-3) if not isinstance(d, S) else d == 0


suite.case(bounds="1 step, 2 actions, ratio 2", ratio=2.0)(off_case)


def ppo_case(env, T, A, gamma=0.5, eps=0.25, value=False, entropy=0.0, n=1, clip=1e6, clampmin=False, epochs=1):
    scorer = Scorer(env, A)
    v = env.net("v", 1) if value else None
    tr = PPOTrainer(_types.SimpleNamespace(scorer=scorer, sampler=SoftmaxActionSampler()), gamma=gamma, optimizer=sgd(), optimizer_value_net=sgd(),
                    normalize=False, update_freq=n, update_epochs=epochs, ppo_batch_size=n, ppo_epsilon=eps, entropy_weight=entropy, value_net=v,
                    reward_clip=clip, offset_clamp_min=clampmin)
    grad, vgrad = [0] * A, 0
    for k in range(n):
        b, ai = trajectory(env, str(k), T, A, True)
        P = [softmax_spec(row, [1] * A, 1.0) for row in env.L(scorer.net(b.state))]
        LP, V = env.L(b.log_prob), [x[0] for x in env.L(v(b.state))] if value else [0] * T
        G = advantage(env, b, gamma, clip, False, True, clampmin, value)
        adv = [G[t] - V[t] for t in range(T)]
        w = [pick_at(P[t], ai[t]) / sexp(LP[t]) for t in range(T)]
        cut = [clamp(x, 1 - eps, 1 + eps) for x in w]
        plain, clipped = ssum(x * y for x, y in zip(adv, w)), ssum(x * y for x, y in zip(adv, cut))
        # the two surrogates tie only where nothing is cut
        env.assume(sor(plain != clipped, sand(*[sand(x >= 1 - eps, x <= 1 + eps) for x in w])))
        for t in range(T):
            for j in range(A):
                d = w[t] * (ite(ai[t] == j, 1, 0) - P[t][j])
                # min of plain and clipped surrogate: the clipped one passes no gradient where it is cut
                dc = ite(sor(w[t] < 1 - eps, w[t] > 1 + eps), 0, d)
                pick = ite(plain < clipped, d, dc)
                grad[j] = grad[j] - adv[t] * pick / n
        if entropy:
            for t in range(T):
                H = -ssum(p * slog(p) for p in P[t])
                for j in range(A):
                    grad[j] = grad[j] - entropy * (-P[t][j] * (slog(P[t][j]) + H)) / T / n
        vgrad = vgrad + ssum(2 * (V[t] - G[t]) for t in range(T)) / T / n
        if k + 1 == n:
            env.eq(scorer.net.theta, [0] * A, "no update before the buffer is full")
        tr.train(b)
    env.eq(scorer.net.theta, [-g for g in grad], "policy step")
    if value:
        env.eq(v.theta, [-vgrad], "baseline step")
    env.check(len(tr.traj_buffer) == 0, "the buffer is emptied after an update")


suite.case(bounds="1 trajectory of 1 step, 2 actions", T=1, A=2)(ppo_case)
suite.case(bounds="1 trajectory of 1 step, 2 actions", T=1, A=2, value=True)(ppo_case)
suite.case(tier="thorough", bounds="1 trajectory of 2 steps, 2 actions", vc_s=120, budget_s=1800, T=2, A=2)(ppo_case)
suite.case(bounds="2 trajectories of 1 step, 2 actions", T=1, A=2, n=2)(ppo_case)
suite.case(bounds="1 trajectory of 1 step, 2 actions, entropy bonus", T=1, A=2, entropy=0.5)(ppo_case)


class Direct:
    """a sampler whose log-probability of any action is the score itself"""

    def log_prob(self, scores, action):
        return scores[:, 0]

    def entropy(self, scores):
        return scores.sum() * 0


def ppo_sum_case(env, T, gamma=0.5, eps=0.25):
    """the smaller of the two surrogates is taken over the whole trajectory"""
    scorer = Scorer(env, 1)
    tr = PPOTrainer(_types.SimpleNamespace(scorer=scorer, sampler=Direct()), gamma=gamma, optimizer=sgd(), optimizer_value_net=sgd(), normalize=False,
                    update_freq=1, update_epochs=1, ppo_batch_size=1, ppo_epsilon=eps, entropy_weight=0.0)
    b, ai = trajectory(env, "", T, 2, False)
    x = [r[0] for r in env.L(scorer.net(b.state))]
    adv = returns(env.L(b.reward), gamma)
    w = [sexp(u - v) for u, v in zip(x, env.L(b.log_prob))]
    cut = [clamp(v, 1 - eps, 1 + eps) for v in w]
    plain, clipped = ssum(u * v for u, v in zip(adv, w)), ssum(u * v for u, v in zip(adv, cut))
    env.assume(sor(plain != clipped, sand(*[sand(v >= 1 - eps, v <= 1 + eps) for v in w])))
    inside = [sand(v >= 1 - eps, v <= 1 + eps) for v in w]
    tr.train(b)
    env.eq(scorer.net.theta, [ssum(u * ite(plain < clipped, v, ite(i, v, 0)) for u, v, i in zip(adv, w, inside))], "policy step")


suite.case(bounds="1 trajectory of 2 steps, any log-probabilities", T=2)(ppo_sum_case)
suite.case(bounds="1 trajectory of 3 steps, any log-probabilities", T=3)(ppo_sum_case)
