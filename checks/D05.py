"""Categorical (C51) value distributions: projection of the Bellman target, cross entropy, value read-out."""
from reagent.parameters import RLParameters
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.training.c51_trainer import C51Trainer
from checks.common import *

suite = Suite("D05", ["atom log-probabilities lie in [-6, 0]", "every state offers at least one allowed action"])


class DistNet(torch.nn.Module):
    def __init__(self, env, name, A, N):
        super().__init__()
        self.net = env.net(name, (A, N), bound=(-6, 0))

    def log_dist(self, state):
        return self.net(state)


def batch(env, B, A, time_diff, step):
    s, ns = env.real("s", B, 1), env.real("ns", B, 1)
    a, ai = one_hot(env, "a", B, A)
    na, ni = one_hot(env, "na", B, A)
    # with several transitions the first one has a fixed reward and is not terminal: the projection of a row then costs paths once
    r = torch.cat([torch.full((B - 1, 1), 0.5), env.real("r", 1, 1)])
    nt = torch.cat([torch.ones(B - 1, 1), env.mask("nt", 1, 1)])
    pm = env.mask("pm", B, A)
    for i in range(B):
        env.assume(sor(*[m == 1 for m in env.L(pm)[i]]))
    td = env.ints("td", B, 1, lo=0, hi=2) if time_diff else torch.ones(B, 1)
    st = env.ints("step", B, 1, lo=1, hi=2) if step else None
    b = rlt.DiscreteDqnInput(state=feat(s), next_state=feat(ns), reward=r, time_diff=td, step=st, not_terminal=nt, action=a,
                             next_action=na, possible_actions_mask=torch.ones(B, A), possible_next_actions_mask=pm, extras=rlt.ExtraData())
    return b, ai, ni


def c51_case(env, B, A, N, qmin, qmax, double, maxq, time_diff=False, step=False, boost=False, gamma=0.5):
    b, ai, ni = batch(env, B, A, time_diff, step)
    q, qt = DistNet(env, "q", A, N), DistNet(env, "qt", A, N)
    rl = RLParameters(gamma=gamma, maxq_learning=maxq, use_seq_num_diff_as_time_diff=time_diff, multi_steps=2 if step else None,
                      reward_boost={"0": 0.25} if boost else None)
    tr = prepare(C51Trainer(q, qt, actions=[str(i) for i in range(A)], rl=rl, double_q_learning=double, num_atoms=N, qmin=qmin, qmax=qmax))
    for net in (q, qt):        # a log-probability is at most 0, so its exponential is at most 1
        for v in env._flat(env.L(net.log_dist(b.next_state))):
            env.assume(sexp(v) <= 1)
    steps = drive(tr, b)
    env.check(len(steps) == 2, "distribution loss, target update")
    LD, QN, TN = env.L(q.log_dist(b.state)), env.L(q.log_dist(b.next_state)), env.L(qt.log_dist(b.next_state))
    R, NT, PM = env.L(b.reward), env.L(b.not_terminal), env.L(b.possible_next_actions_mask)
    dz = (qmax - qmin) / (N - 1)
    Z = [qmin + dz * k for k in range(N)]
    loss, grad = 0, [[0] * N for _ in range(A)]
    for i in range(B):
        if maxq:
            score = [ssum(sexp(v) * z for v, z in zip(row, Z)) for row in (QN if double else TN)[i]]
            na = argmax_first(score, PM[i])
        else:
            na = ni[i]
        p = [sexp(pick_at([TN[i][j][k] for j in range(A)], na)) for k in range(N)]
        disc = spow(gamma, env.L(b.time_diff)[i][0]) if time_diff else spow(gamma, env.L(b.step)[i][0]) if step else gamma
        rew = R[i][0] + (ite(ai[i] == 0, 0.25, 0) if boost else 0)
        t = [clamp(rew + ite(NT[i][0] == 1, disc * z, 0), qmin, qmax) for z in Z]
        # each atom's mass is split between its two neighbours in proportion to closeness
        m = [ssum(p[k] * smax(0, 1 - abs(t[k] - Z[j]) / dz) for k in range(N)) for j in range(N)]
        for j in range(N):
            loss = loss - m[j] * pick_at([LD[i][c][j] for c in range(A)], ai[i]) / B
            for c in range(A):
                grad[c][j] = grad[c][j] - ite(ai[i] == c, m[j], 0) / B
    env.eq(steps[0].loss, loss, "cross entropy against the projected target")
    env.eq(steps[0].grad(q.net), [g for row in grad for g in row], "gradient at the log-probabilities")
    env.check(qt.net.theta.grad is None, "no gradient reaches the target network")


K = dict(N=3, qmin=-2, qmax=2)
for kw in [dict(double=True, maxq=True), dict(double=False, maxq=True), dict(double=True, maxq=False)]:
    suite.case(bounds="1 transition, 2 actions, 3 atoms", B=1, A=2, **K, **kw)(c51_case)
suite.case(bounds="1 transition, 1 action, 4 atoms", B=1, A=1, N=4, qmin=-1, qmax=2, double=True, maxq=False)(c51_case)
suite.case(bounds="1 transition, 2 actions, 3 atoms, boosts", B=1, A=2, **K, double=True, maxq=False, boost=True)(c51_case)
suite.case(bounds="1 transition, 1 action, 3 atoms, time differences", B=1, A=1, **K, double=True, maxq=False, time_diff=True)(c51_case)
suite.case(bounds="1 transition, 1 action, 3 atoms, several steps", B=1, A=1, **K, double=True, maxq=False, step=True)(c51_case)
suite.case(bounds="2 transitions (reward of the first fixed), 2 actions, 2 atoms", B=2, A=2, N=2, qmin=-2, qmax=2, double=True, maxq=False)(c51_case)
suite.case(tier="thorough", bounds="1 transition, 3 actions, 5 atoms", B=1, A=3, N=5, qmin=-2, qmax=2, double=True, maxq=True)(c51_case)


def readout_case(env, A, N, qmin, qmax):
    net = env.net("d", (A, N), bound=(-4, 4))
    m = CategoricalDQN(net, qmin=qmin, qmax=qmax, num_atoms=N)
    st = feat(env.real("s", 2, 1))
    out, ld, raw = env.L(m(st)), env.L(m.log_dist(st)), env.L(net(st))
    dz = (qmax - qmin) / (N - 1)
    for i in range(2):
        for j in range(A):
            e = [sexp(v) for v in raw[i][j]]
            z = ssum(e)
            env.eq(out[i][j], ssum(w / z * (qmin + dz * k) for k, w in enumerate(e)), "expected value")
            env.eq([sexp(v) for v in ld[i][j]], [w / z for w in e], "atom probabilities")
            env.le(qmin, out[i][j], "value at least the smallest atom")
            env.le(out[i][j], qmax, "value at most the largest atom")


suite.case(bounds="2 states, 2 actions, 3 atoms", A=2, N=3, qmin=-2, qmax=2)(readout_case)
suite.case(bounds="2 states, 1 action, 4 atoms", A=1, N=4, qmin=-1, qmax=2)(readout_case)
