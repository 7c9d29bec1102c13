"""Counterfactual-evaluation heads trained next to discrete Q-learning."""
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.dqn_trainer import DQNTrainer
from reagent.torch_utils import masked_softmax
from checks.common import *

suite = Suite("D02", ["network outputs lie in [-4, 4]", "every state offers at least one allowed action"])


def softmax_spec(scores, mask, temp):
    e = [ite(m == 1, sexp(q / temp), 0) for q, m in zip(scores, mask)]
    z = ssum(e)
    return [v / z for v in e]


def cpe_case(env, B, A, M, maxq, temp, gamma=0.5, loss="mse"):
    s, ns = env.real("s", B, 1), env.real("ns", B, 1)
    a, ai = one_hot(env, "a", B, A)
    r, nt = env.real("r", B, 1), env.mask("nt", B, 1)
    met = env.real("met", B, M) if M else None
    pm = env.mask("pm", B, A)
    for i in range(B):
        env.assume(sor(*[m == 1 for m in env.L(pm)[i]]))
    na, _ = one_hot(env, "na", B, A)
    b = rlt.DiscreteDqnInput(state=feat(s), next_state=feat(ns), reward=r, time_diff=torch.ones(B, 1), step=None,
                             not_terminal=nt, action=a, next_action=na, possible_actions_mask=torch.ones(B, A),
                             possible_next_actions_mask=pm, extras=rlt.ExtraData(metrics=met))
    q, qt = env.net("q", A, bound=(-4, 4)), env.net("qt", A, bound=(-4, 4))
    K = M + 1
    rn = env.net("rn", A * K)
    qc, qct = env.net("qc", A * K), env.net("qct", A * K)
    tr = DQNTrainer(q, qt, rn, qc, qct, metrics_to_score=[f"m{i}" for i in range(M)] or None,
                    actions=[str(i) for i in range(A)],
                    rl=RLParameters(gamma=gamma, maxq_learning=maxq, temperature=temp, q_network_loss=loss),
                    evaluation=EvaluationParameters(calc_cpe_in_training=True))
    rep = Reporter()
    tr.set_reporter(rep)
    g = tr.train_step_gen(b, 0)
    next(g)
    l_reward, l_metric = next(g), next(g)
    (l_reward + l_metric).backward()
    RN, QC, QCT = env.L(rn(b.state)), env.L(qc(b.state)), env.L(qct(b.next_state))
    QN, NT, PM, NA, R = env.L(q(b.next_state)), env.L(nt), env.L(pm), env.L(na), env.L(r)
    MET = env.L(met) if M else [[] for _ in range(B)]
    rp, qp = [], []
    for i in range(B):
        # the first head belongs to the reward, the following ones to the metrics in order
        real = [R[i][0]] + MET[i]
        pi = softmax_spec(QN[i], PM[i] if maxq else NA[i], temp)
        for k in range(K):
            rp.append((pick_at(RN[i][k * A:(k + 1) * A], ai[i]), real[k]))
            nxt = ssum(p * v for p, v in zip(pi, QCT[i][k * A:(k + 1) * A]))
            y = real[k] + ite(NT[i][0] == 1, gamma * nxt, 0)
            qp.append((pick_at(QC[i][k * A:(k + 1) * A], ai[i]), y))
    env.eq(l_reward, mse(rp), "reward-network loss")
    env.eq(l_metric, mse(qp) if loss == "mse" else huber(qp), "metric q-network loss")
    n = B * K
    for k in range(K):
        for j in range(A):
            sel = [(rp[i * K + k], qp[i * K + k], ai[i] == j) for i in range(B)]
            env.eq(rn.theta.grad[k * A + j], ssum(ite(c, 2 * (x[0] - x[1]), 0) for x, _, c in sel) / n, f"reward gradient {k},{j}")
            if loss == "mse":
                env.eq(qc.theta.grad[k * A + j], ssum(ite(c, 2 * (y[0] - y[1]), 0) for _, y, c in sel) / n, f"metric gradient {k},{j}")
    env.check(qct.theta.grad is None and q.theta.grad is None and qt.theta.grad is None,
              "only the evaluation heads are trained by these losses")
    if "model_propensities" in rep.logged:
        scores = env.L(q(b.state))
        for i in range(B):
            env.eq(rep.logged["model_propensities"][i], softmax_spec(scores[i], [1] * A if maxq else env.L(a)[i], temp),
                   "logged model propensities")
            env.eq(rep.logged["model_rewards"][i], RN[i][:A], "logged model rewards")


suite.case(bounds="1 transition, 2 actions, reward + 1 metric", B=1, A=2, M=1, maxq=True, temp=0.5)(cpe_case)
suite.case(bounds="1 transition, 3 actions, reward only", B=1, A=3, M=0, maxq=True, temp=1.0)(cpe_case)
suite.case(bounds="2 transitions, 2 actions, reward + 1 metric", B=2, A=2, M=1, maxq=False, temp=1.0)(cpe_case)


def masked_softmax_case(env, A, temp=None):
    x = env.real("x", 2, A, lo=-8, hi=8)
    m = env.mask("m", 2, A)
    t = env.num("temp", 0.125, 4) if temp is None else temp
    out = masked_softmax(x, m, t)
    X, M, O = env.L(x), env.L(m), env.L(out)
    env.eq(x, X, "input scores are left as they were")
    for i in range(2):
        any_ = sor(*[v == 1 for v in M[i]])
        e = [ite(v == 1, sexp(q / t), 0) for q, v in zip(X[i], M[i])]
        z = ite(any_, ssum(e), 1)
        env.eq(O[i], [v / z for v in e], "masked softmax row")


suite.case(bounds="2 rows, 3 entries, temperature 0.5", A=3, temp=0.5)(masked_softmax_case)
suite.case(bounds="2 rows, 2 entries, any temperature in [1/8, 4]", A=2)(masked_softmax_case)
