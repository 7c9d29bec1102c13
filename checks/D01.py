"""Discrete Q-learning: the regression target, the loss and what it trains."""
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.dqn_trainer import BCQConfig, DQNTrainer
from checks.common import *

suite = Suite("D01", ["network outputs lie in [-1000, 1000], far above the -1e9 the code gives to a forbidden action",
                      "a non-terminal next state has at least one allowed action"])


def batch(env, B, A, maxq, time_diff=False, step=False):
    s, ns = env.real("s", B, 1), env.real("ns", B, 1)
    a, ai = one_hot(env, "a", B, A)
    r = env.real("r", B, 1)
    nt = env.mask("nt", B, 1)
    td = env.ints("td", B, 1, lo=0, hi=3) if time_diff else torch.ones(B, 1)
    st = env.ints("step", B, 1, lo=1, hi=3) if step else None
    if maxq:
        pm = env.mask("pm", B, A)
        na = torch.zeros(B, A)
        for i in range(B):
            env.assume(sor(env.L(nt)[i][0] == 0, *[m == 1 for m in env.L(pm)[i]]))
    else:
        pm = torch.ones(B, A)
        nm = env.ints("na", B, lo=0, hi=A - 1)
        na = torch.nn.functional.one_hot(nm, A).float() * nt
    return rlt.DiscreteDqnInput(state=feat(s), next_state=feat(ns), reward=r, time_diff=td, step=st, not_terminal=nt,
                                action=a, next_action=na, possible_actions_mask=torch.ones(B, A),
                                possible_next_actions_mask=pm, extras=rlt.ExtraData()), ai


def target_case(env, B, A, double, maxq, loss="mse", time_diff=False, step=False, boost=False, gamma=0.5, bcq=None):
    b, ai = batch(env, B, A, maxq, time_diff, step)
    q = env.net("q", A, bound=(-1000, 1000))
    qt = env.net("qt", A, bound=(-1000, 1000))
    names = [str(i) for i in range(A)]
    bo = {names[0]: 0.25, names[-1]: -1.5} if boost else None
    im = env.net("im", A, bound=(-4, 4)) if bcq is not None else None
    tr = DQNTrainer(q, qt, None, actions=names, evaluation=EvaluationParameters(calc_cpe_in_training=False), double_q_learning=double, imitator=im, bcq=BCQConfig(drop_threshold=bcq) if bcq is not None else None,
                    rl=RLParameters(gamma=gamma, maxq_learning=maxq, q_network_loss=loss, temperature=1.0,
                                    use_seq_num_diff_as_time_diff=time_diff, multi_steps=3 if step else None, reward_boost=bo))
    if bcq is not None:
        on = []
        for row in env.L(im(b.next_state.float_features)):
            e = [sexp(v) for v in row]
            top = smax(*e)
            on.append([v >= bcq * top for v in e])
        PM0 = env.L(b.possible_next_actions_mask)
        PM = [[ite(sand(PM0[i][j] == 1, on[i][j]), 1, 0) for j in range(A)] for i in range(B)]
        for i in range(B):
            env.assume(sor(*[m == 1 for m in PM[i]]))
    else:
        PM = env.L(b.possible_next_actions_mask)
    L = next(tr.train_step_gen(b, 0))
    L.backward()
    Q, QN, TN = env.L(q(b.state)), env.L(q(b.next_state)), env.L(qt(b.next_state))
    R, NT, NA = env.L(b.reward), env.L(b.not_terminal), env.L(b.next_action)
    pairs = []
    for i in range(B):
        allowed = PM[i] if maxq else NA[i]
        if double:
            k = argmax_first(QN[i], allowed)
            nv = pick_at(TN[i], k)
        else:
            nv = masked_max(TN[i], allowed)
        disc = gamma
        if time_diff:
            disc = spow(gamma, env.L(b.time_diff)[i][0])
        if step:
            disc = spow(gamma, env.L(b.step)[i][0])
        rew = R[i][0]
        if boost:
            rew = rew + pick_at([0.25] + [0] * (A - 2) + [-1.5], ai[i])
        y = rew + ite(NT[i][0] == 1, disc * nv, 0)
        pairs.append((pick_at(Q[i], ai[i]), y))
    env.eq(L, (mse if loss == "mse" else huber)(pairs), "loss")
    for j in range(A):
        if loss == "mse":
            g = ssum(ite(ai[i] == j, 2 * (pairs[i][0] - pairs[i][1]), 0) for i in range(B)) / B
        else:
            g = ssum(ite(ai[i] == j, clamp(pairs[i][0] - pairs[i][1], -1, 1), 0) for i in range(B)) / B
        env.eq(q.theta.grad[j], g, f"gradient at output {j}")
    env.check(qt.theta.grad is None, "no gradient reaches the target network")


for kw in [dict(double=d, maxq=m) for d in (True, False) for m in (True, False)]:
    suite.case(bounds="2 transitions, 3 actions", B=2, A=3, **kw)(target_case)
suite.case(bounds="1 transition, 3 actions", B=1, A=3, double=True, maxq=True, loss="huber")(target_case)
suite.case(bounds="1 transition, 3 actions", B=1, A=3, double=True, maxq=True, time_diff=True)(target_case)
suite.case(bounds="1 transition, 3 actions", B=1, A=3, double=True, maxq=True, step=True)(target_case)
suite.case(bounds="1 transition, 3 actions", B=1, A=3, double=False, maxq=True, boost=True)(target_case)
suite.case(bounds="1 transition, 2 actions", B=1, A=2, double=False, maxq=True, bcq=0.25)(target_case)
