"""Quantile-regression Q-learning: quantile Huber loss against the Bellman target, and its evaluation heads."""
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.qrdqn_trainer import QRDQNTrainer
from checks.common import *
from checks.D02 import softmax_spec

suite = Suite("D06", ["network outputs lie in [-1000, 1000], far above the -1e9 the code gives to a forbidden action",
                      "every state offers at least one allowed action"])


def qr_case(env, B, A, N, double, maxq, time_diff=False, step=False, boost=False, cpe=False, gamma=0.5):
    s, ns = env.real("s", B, 1), env.real("ns", B, 1)
    a, ai = one_hot(env, "a", B, A)
    na, ni = one_hot(env, "na", B, A)
    r, nt, pm = env.real("r", B, 1), env.mask("nt", B, 1), env.mask("pm", B, A)
    for i in range(B):
        env.assume(sor(*[m == 1 for m in env.L(pm)[i]]))
    td = env.ints("td", B, 1, lo=0, hi=2) if time_diff else torch.ones(B, 1)
    st = env.ints("step", B, 1, lo=1, hi=2) if step else None
    b = rlt.DiscreteDqnInput(state=feat(s), next_state=feat(ns), reward=r, time_diff=td, step=st, not_terminal=nt, action=a,
                             next_action=na, possible_actions_mask=torch.ones(B, A), possible_next_actions_mask=pm, extras=rlt.ExtraData())
    bd = (-4, 4) if cpe else (-1000, 1000)
    q, qt = env.net("q", (A, N), bound=bd), env.net("qt", (A, N), bound=bd)
    heads = dict(reward_network=env.net("rn", A), q_network_cpe=env.net("qc", A), q_network_cpe_target=env.net("qct", A)) if cpe else {}
    rl = RLParameters(gamma=gamma, maxq_learning=maxq, use_seq_num_diff_as_time_diff=time_diff, multi_steps=2 if step else None,
                      reward_boost={"0": 0.25} if boost else None, temperature=1.0)
    tr = prepare(QRDQNTrainer(q, qt, actions=[str(i) for i in range(A)], rl=rl, double_q_learning=double, num_atoms=N,
                              evaluation=EvaluationParameters(calc_cpe_in_training=cpe), **heads))
    steps = drive(tr, b)
    env.check(len(steps) == (4 if cpe else 2), "number of losses")
    QS, QN, TN = env.L(q(b.state)), env.L(q(b.next_state)), env.L(qt(b.next_state))
    R, NT, PM = env.L(r), env.L(nt), env.L(pm)
    loss, grad = 0, [[0] * N for _ in range(A)]
    for i in range(B):
        if maxq:
            k = argmax_first([ssum(v) / N for v in (QN if double else TN)[i]], PM[i])
        else:
            k = ni[i]
        disc = spow(gamma, env.L(td)[i][0]) if time_diff else spow(gamma, env.L(st)[i][0]) if step else gamma
        rew = R[i][0] + (ite(ai[i] == 0, 0.25, 0) if boost else 0)
        for t in range(N):
            y = rew + ite(NT[i][0] == 1, disc * pick_at([TN[i][c][t] for c in range(A)], k), 0)
            for m in range(N):
                tau = (m + 0.5) / N
                u = y - pick_at([QS[i][c][m] for c in range(A)], ai[i])
                w = ite(u < 0, 1 - tau, tau)
                loss = loss + w * ite(abs(u) < 1, u * u / 2, abs(u) - 0.5) / (B * N * N)
                for c in range(A):
                    grad[c][m] = grad[c][m] - ite(ai[i] == c, w * clamp(u, -1, 1), 0) / (B * N * N)
    env.eq(steps[0].loss, loss, "quantile Huber loss")
    env.eq(steps[0].grad(q), [g for row in grad for g in row], "gradient at the quantiles")
    if cpe:
        rn, qc, qct = heads["reward_network"], heads["q_network_cpe"], heads["q_network_cpe_target"]
        RN, QC, QCT = env.L(rn(b.state)), env.L(qc(b.state)), env.L(qct(b.next_state))
        rp, qp = [], []
        for i in range(B):
            pi = softmax_spec([ssum(v) / N for v in QN[i]], PM[i] if maxq else env.L(na)[i], 1.0)
            y = R[i][0] + ite(NT[i][0] == 1, gamma * ssum(x * v for x, v in zip(pi, QCT[i])), 0)
            rp.append((pick_at(RN[i], ai[i]), R[i][0]))
            qp.append((pick_at(QC[i], ai[i]), y))
        for net, prs, what in ((rn, rp, "reward"), (qc, qp, "metric value")):
            st_ = [x for x in steps if id(net.theta) in owners(x.opt)][0]
            env.eq(st_.loss, mse(prs), f"{what} loss is the one handed to the optimizer of the {what} head")
            env.eq(st_.grad(net), [ssum(ite(ai[i] == j, 2 * (prs[i][0] - prs[i][1]), 0) for i in range(B)) / B for j in range(A)], f"{what} gradient")


for kw in [dict(double=True, maxq=True), dict(double=False, maxq=True), dict(double=True, maxq=False)]:
    suite.case(bounds="1 transition, 2 actions, 2 quantiles", B=1, A=2, N=2, **kw)(qr_case)
suite.case(bounds="2 transitions, 2 actions, 1 quantile", B=2, A=2, N=1, double=True, maxq=True)(qr_case)
suite.case(bounds="2 transitions, 1 action, 2 quantiles", B=2, A=1, N=2, double=True, maxq=False)(qr_case)
suite.case(bounds="1 transition, 1 action, 4 quantiles", B=1, A=1, N=4, double=True, maxq=True, boost=True)(qr_case)
suite.case(bounds="1 transition, 2 actions, 1 quantile", B=1, A=2, N=1, double=True, maxq=True, time_diff=True)(qr_case)
suite.case(bounds="1 transition, 2 actions, 1 quantile", B=1, A=2, N=1, double=True, maxq=True, step=True)(qr_case)
suite.case(bounds="1 transition, 2 actions, 2 quantiles, evaluation heads", B=1, A=2, N=2, double=True, maxq=True, cpe=True)(qr_case)
suite.case(tier="thorough", bounds="1 transition, 3 actions, 4 quantiles", B=1, A=3, N=4, double=True, maxq=True)(qr_case)
