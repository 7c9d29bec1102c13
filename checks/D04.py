"""Parametric-action Q-learning: target, loss, what it trains, and the reward model beside it."""
from reagent.parameters import RLParameters
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from checks.common import *

suite = Suite("D04", ["network outputs lie in [-1000, 1000], far above the -1e9 the code gives to a forbidden action",
                      "a non-terminal next state has at least one allowed candidate action"])


def target_case(env, B, A, double, maxq, loss="mse", time_diff=False, step=False, metrics=0, gamma=0.5):
    s, ns = env.real("s", B, 1), env.real("ns", B, 1)
    act, nact = env.real("a", B, 1), env.real("na", B, 1)
    cand = env.real("cand", B * A, 1)
    r, nt = env.real("r", B, 1), env.mask("nt", B, 1)
    pm = env.mask("pm", B, A) if maxq else torch.ones(B, A)
    for i in range(B):
        env.assume(sor(env.L(nt)[i][0] == 0, *[m == 1 for m in env.L(pm)[i]]))
    td = env.ints("td", B, 1, lo=0, hi=3) if time_diff else torch.ones(B, 1)
    st = env.ints("step", B, 1, lo=1, hi=3) if step else None
    met = env.real("met", B, metrics) if metrics else None
    b = rlt.ParametricDqnInput(state=feat(s), next_state=feat(ns), reward=r, time_diff=td, step=st, not_terminal=nt,
                               action=feat(act), next_action=feat(nact), possible_actions=feat(torch.zeros(B * A, 1)),
                               possible_actions_mask=torch.ones(B, A), possible_next_actions=feat(cand),
                               possible_next_actions_mask=pm, extras=rlt.ExtraData(metrics=met))
    q, qt = env.net("q", 1, bound=(-1000, 1000)), env.net("qt", 1, bound=(-1000, 1000))
    rn = env.net("rn", 1 + metrics)
    tr = prepare(ParametricDQNTrainer(q, qt, rn, double_q_learning=double, rl=RLParameters(
        gamma=gamma, maxq_learning=maxq, q_network_loss=loss, use_seq_num_diff_as_time_diff=time_diff, multi_steps=3 if step else None)))
    steps = drive(tr, b)
    env.check(len(steps) == 3, "q loss, reward loss, target update")
    one = lambda net, x, y: env.L(net(feat(x), feat(y)))
    Q, RN = one(q, s, act), one(rn, s, act)
    R, NT, PM = env.L(r), env.L(nt), env.L(pm)
    pairs, rp = [], []
    for i in range(B):
        rows = cand[i * A:(i + 1) * A]
        rep = ns[i:i + 1].repeat(A, 1)
        QN = [v[0] for v in one(q, rep, rows)]
        TN = [v[0] for v in one(qt, rep, rows)]
        if not maxq:
            nv = one(qt, ns[i:i + 1], nact[i:i + 1])[0][0]
        elif double:
            nv = pick_at(TN, argmax_first(QN, PM[i]))
        else:
            nv = masked_max(TN, PM[i])
        disc = spow(gamma, env.L(td)[i][0]) if time_diff else spow(gamma, env.L(st)[i][0]) if step else gamma
        y = R[i][0] + ite(NT[i][0] == 1, disc * nv, 0)
        pairs.append((Q[i][0], y))
        rp += list(zip(RN[i], [R[i][0]] + (env.L(met)[i] if metrics else [])))
    env.eq(steps[0].loss, (mse if loss == "mse" else huber)(pairs), "q loss")
    if loss == "mse":
        g = ssum(2 * (x - y) for x, y in pairs) / B
    else:
        g = ssum(clamp(x - y, -1, 1) for x, y in pairs) / B
    env.eq(steps[0].grad(q), [g], "gradient at the q output")
    env.eq(steps[1].loss, mse(rp), "reward loss")
    K = 1 + metrics
    env.eq(steps[1].grad(rn), [ssum(2 * (x - y) for x, y in rp[k::K]) / (B * K) for k in range(K)], "gradient at the reward output")
    env.check(qt.theta.grad is None, "no gradient reaches the target network")


for kw in [dict(double=True, maxq=True), dict(double=False, maxq=True), dict(double=True, maxq=False)]:
    suite.case(bounds="2 transitions, 2 candidate actions", B=2, A=2, **kw)(target_case)
suite.case(bounds="1 transition, 3 candidate actions", B=1, A=3, double=True, maxq=True, loss="huber")(target_case)
suite.case(bounds="1 transition, 2 candidate actions", B=1, A=2, double=True, maxq=True, time_diff=True)(target_case)
suite.case(bounds="2 transitions, SARSA", B=2, A=1, double=True, maxq=False, step=True)(target_case)
suite.case(bounds="2 transitions, 2 metrics", B=2, A=1, double=True, maxq=False, metrics=2)(target_case)
suite.case(tier="thorough", bounds="2 transitions, 3 candidate actions", B=2, A=3, double=True, maxq=True)(target_case)
