"""Evaluation pages: what a training batch contributes to counterfactual evaluation, and how pages are merged, sorted and summed."""
import types
from reagent.evaluation import evaluation_data_page as page_mod
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from checks.common import *
from checks.D02 import softmax_spec

suite = Suite("D22", ["network outputs lie in [-4, 4]", "every state offers at least one allowed action", "the logged action is one of the listed candidates"])


def probabilities(env, got, scores, mask, temp):
    for i, (s, m) in enumerate(zip(scores, mask)):
        env.eq(env.L(got)[i], softmax_spec(s, m, temp), "target probabilities")


def blocks(v, a):
    return [v[k * a:(k + 1) * a] for k in range(len(v) // a)]


def dqn_case(env, B, A, M, temp, boost=None):
    s = env.real("s", B, 1)
    a, ai = one_hot(env, "a", B, A)
    r, lp, pm = env.real("r", B, 1), env.real("lp", B, 1, lo=0.125, hi=1), env.mask("pm", B, A)
    met = env.real("met", B, M) if M else None
    P = env.L(pm)
    for row in P:
        env.assume(sor(*[m == 1 for m in row]))
    K = 1 + M
    q, qt, rn, qc, qct = env.net("q", A, bound=(-4, 4)), env.net("qt", A), env.net("rn", A * K), env.net("qc", A * K), env.net("qct", A * K)
    tr = DQNTrainer(q, qt, rn, qc, qct, metrics_to_score=[f"m{i}" for i in range(M)] or None, actions=[str(i) for i in range(A)],
                    rl=RLParameters(temperature=temp, reward_boost=boost), evaluation=EvaluationParameters(calc_cpe_in_training=True))
    R, LP = env.L(r), env.L(lp)
    ids, seq = torch.arange(B).reshape(B, 1), torch.zeros(B, 1)
    b = rlt.DiscreteDqnInput(state=feat(s), next_state=feat(s), reward=r, time_diff=torch.ones(B, 1), step=None, not_terminal=torch.ones(B, 1), action=a,
                             next_action=a, possible_actions_mask=pm, possible_next_actions_mask=torch.zeros(B, A),
                             extras=rlt.ExtraData(mdp_id=ids, sequence_number=seq, action_probability=lp, metrics=met))
    modes = [env.pick(f"train{i}", [True, False]) for i in range(3)]
    for n, m in zip((q, rn, qc), modes):
        n.train(m)
    p = EvaluationDataPage.create_from_training_batch(b, tr)
    env.check([n.training for n in (q, rn, qc)] == modes, "train or eval mode is restored")
    Q, RN, QC = env.L(q(feat(s))), env.L(rn(feat(s))), env.L(qc(feat(s)))
    extra = [boost.get(str(j), 0) if boost else 0 for j in range(A)]
    env.eq(p.logged_rewards, [[R[i][0] + pick_at(extra, ai[i])] for i in range(B)], "logged rewards")
    env.eq(p.logged_propensities, LP, "logged probabilities")
    env.eq(p.action_mask, [[ite(ai[i] == j, 1, 0) for j in range(A)] for i in range(B)], "logged action")
    probabilities(env, p.model_propensities, Q, P, temp)
    env.eq(p.model_rewards, [x[:A] for x in RN], "predicted rewards")
    env.eq(p.model_values, [x[:A] for x in QC], "predicted values")
    env.eq(p.optimal_q_values, Q, "decision values")
    env.eq(p.model_rewards_for_logged_action, [[pick_at(x[:A], ai[i])] for i, x in enumerate(RN)], "predicted reward of the logged action")
    env.eq(p.model_values_for_logged_action, [[pick_at(x[:A], ai[i])] for i, x in enumerate(QC)], "predicted value of the logged action")
    env.eq(env.L(p.eval_action_idxs), [[argmax_first(Q[i], P[i])] for i in range(B)], "best action")
    env.eq(p.possible_actions_mask, P, "possible actions")
    env.check(p.mdp_id is ids and p.sequence_number is seq and p.logged_metrics is met, "episode, position and metrics of the batch")
    if M:
        env.eq(p.model_metrics, [x[A:] for x in RN], "predicted metrics")
        env.eq(p.model_metrics_values, [x[A:] for x in QC], "predicted metric values")
        env.eq(p.model_metrics_for_logged_action, [[pick_at(y, ai[i]) for y in blocks(x, A)[1:]] for i, x in enumerate(RN)], "predicted metrics of the logged action")
        env.eq(p.model_metrics_values_for_logged_action, [[pick_at(y, ai[i]) for y in blocks(x, A)[1:]] for i, x in enumerate(QC)], "predicted metric values of the logged action")
    else:
        env.check(p.model_metrics_values is None and p.model_metrics_for_logged_action is None, "no metrics")


suite.case(bounds="1 sample, 2 actions, 2 metrics", B=1, A=2, M=2, temp=0.5)(dqn_case)
suite.case(bounds="2 samples, 2 actions, reward boosts", B=2, A=2, M=0, temp=1.0, boost={"1": 2.5})(dqn_case)
suite.case(tier="thorough", bounds="2 samples, 3 actions, 1 metric", B=2, A=3, M=1, temp=0.5)(dqn_case)


def parametric_case(env, B, A, M, temp):
    s, cand = env.real("s", B, 1), env.real("cand", B * A, 2)
    ix = env.ints("logged", B, lo=0, hi=A - 1)
    C = env.L(cand)
    AI = env.L(ix)
    act = env.mk([[unwrap(pick_at([C[i * A + j][d] for j in range(A)], AI[i])) for d in range(2)] for i in range(B)])
    for i in range(B):
        for j in range(A):
            for k in range(j):
                env.assume(snot(sand(*[C[i * A + j][d] == C[i * A + k][d] for d in range(2)])))
    r, lp, pm = env.real("r", B, 1), env.real("lp", B, 1, lo=0.125, hi=1), env.mask("pm", B, A)
    P = env.L(pm)
    for row in P:
        env.assume(sor(*[m == 1 for m in row]))
    q, qt, rn = env.net("q", 1, bound=(-4, 4)), env.net("qt", 1), env.net("rn", 1 + M)
    tr = ParametricDQNTrainer(q, qt, rn, rl=RLParameters(temperature=temp))
    met = env.real("met", B, M) if M else None
    ids, seq = torch.arange(B).reshape(B, 1), torch.zeros(B, 1)
    b = rlt.ParametricDqnInput(state=feat(s), next_state=feat(s), reward=r, time_diff=torch.ones(B, 1), step=None, not_terminal=torch.ones(B, 1), action=feat(act),
                               next_action=feat(act), possible_actions=feat(cand), possible_actions_mask=pm, possible_next_actions=feat(torch.zeros(B * A, 2)),
                               possible_next_actions_mask=torch.zeros(B, A), extras=rlt.ExtraData(mdp_id=ids, sequence_number=seq, action_probability=lp, max_num_actions=A, metrics=met))
    modes = [env.pick(f"train{i}", [True, False]) for i in range(2)]
    for n, m in zip((q, rn), modes):
        n.train(m)
    p = EvaluationDataPage.create_from_training_batch(b, tr)
    env.check([n.training for n in (q, rn)] == modes, "train or eval mode is restored")
    tile = s.repeat_interleave(A, dim=0)
    Q = [[x[0] for x in y] for y in blocks(env.L(q(feat(tile), feat(cand))), A)]
    RN = blocks(env.L(rn(feat(tile), feat(cand))), A)
    env.eq(p.model_values, Q, "predicted values")
    env.eq(p.optimal_q_values, Q, "decision values")
    probabilities(env, p.model_propensities, Q, P, temp)
    env.eq(p.model_rewards, [[x[0] for x in y] for y in RN], "predicted rewards")
    env.eq(p.action_mask, [[ite(AI[i] == j, 1, 0) for j in range(A)] for i in range(B)], "logged action")
    env.eq(p.model_values_for_logged_action, [[pick_at(Q[i], AI[i])] for i in range(B)], "predicted value of the logged action")
    env.eq(p.model_rewards_for_logged_action, [[pick_at([x[0] for x in RN[i]], AI[i])] for i in range(B)], "predicted reward of the logged action")
    env.eq(p.logged_rewards, r, "logged rewards")
    env.eq(p.logged_propensities, lp, "logged probabilities")
    env.check(p.mdp_id is ids and p.sequence_number is seq and p.logged_metrics is met, "episode, position and metrics of the batch")
    if M:
        env.eq(p.model_metrics, [[y[k] for k in range(1, 1 + M) for y in RN[i]] for i in range(B)], "predicted metrics, one block of actions per metric")


suite.case(bounds="2 samples, 2 candidates", B=2, A=2, M=0, temp=0.5)(parametric_case)
suite.case(bounds="1 sample, 3 candidates, 1 metric", B=1, A=3, M=1, temp=1.0)(parametric_case)
suite.case(bounds="1 sample, 2 candidates, 2 metrics", B=1, A=2, M=2, temp=1.0)(parametric_case)


def slate_case(env, B, n, m, greedy):
    """the logged slate counts as taken exactly when the greedy ranking repeats it; otherwise it is weighed by its probability"""
    st, src, seq = env.real("st", B, 1), env.real("src", B, n, 1), env.real("seq", B, m, 1)
    logged, ranked = env.ints("logged", B, m, lo=2, hi=n + 1), env.ints("ranked", B, m, lo=2, hi=n + 1)
    lp, rew, prob = env.real("lp", B, 1, lo=-4, hi=0), env.real("rew", B, 1), env.real("prob", B, 1)
    modes = []
    def net(x, mode, greedy=None):
        modes.append((mode, greedy))
        return types.SimpleNamespace(ranked_tgt_out_idx=ranked, log_probs=lp)
    rn = env.net("rn", 1)
    reward = lambda s, sr, tgt, mask, idx: rn(s, sr.reshape(B, -1), tgt.reshape(B, -1), idx.float())
    x = rlt.PreprocessedRankingInput(state=feat(st), src_seq=feat(src), src_src_mask=torch.ones(B, n, n), tgt_out_seq=feat(seq), slate_reward=rew, tgt_out_probs=prob,
                                     tgt_out_idx=logged)
    p = EvaluationDataPage.create_from_tensors_seq2slate(net, reward, x, greedy)
    G, H, S = env.L(logged), env.L(ranked), env.L(src)
    env.check((Seq2SlateMode.RANK_MODE, True) in modes, "the greedy ranking is evaluated")
    if greedy:
        env.eq(p.model_propensities, [[1]] * B, "a greedy ranking is certain")
        env.eq(p.action_mask, [[ite(sand(*[g == h for g, h in zip(G[i], H[i])]), 1, 0)] for i in range(B)], "same slate")
    else:
        env.eq(p.model_propensities, [[sexp(v) for v in r] for r in env.L(lp)], "probability of the logged slate")
        env.eq(p.action_mask, [[1]] * B, "the logged slate is the only action")
    best = env.mk([[[unwrap(pick_at([y[0] for y in S[i]], H[i][j] - 2))] for j in range(m)] for i in range(B)])
    env.eq(p.model_rewards, reward(st, src, best, None, ranked), "predicted reward of the greedy slate")
    env.eq(p.model_rewards_for_logged_action, reward(st, src, seq, None, logged), "predicted reward of the logged slate")
    env.eq(p.logged_rewards, rew, "logged rewards")
    env.eq(p.logged_propensities, prob, "logged probabilities")


for g in (True, False):
    suite.case(bounds="2 slates of 2 out of 3", B=2, n=3, m=2, greedy=g)(slate_case)


def blank(env, k, n, a, m, drop=()):
    f = {x: None for x in EvaluationDataPage._fields}
    f.update(mdp_id=env.ints(f"mdp{k}", n, 1, lo=0, hi=2), sequence_number=env.ints(f"seq{k}", n, 1, lo=0, hi=3))
    for x in ("logged_propensities", "logged_rewards", "model_rewards_for_logged_action", "model_values_for_logged_action"):
        f[x] = env.real(x + k, n, 1, lo=-8, hi=8)
    for x in ("action_mask", "model_propensities", "model_rewards", "model_values", "optimal_q_values"):
        f[x] = env.real(x + k, n, a, lo=-8, hi=8)
    for x, w in (("logged_metrics", m), ("logged_metrics_values", m), ("model_metrics", m * a), ("model_metrics_values", m * a), ("model_metrics_for_logged_action", m)):
        f[x] = env.real(x + k, n, w, lo=-8, hi=8)
    for x in drop:
        f[x] = None
    return EvaluationDataPage(**f)


@suite.case(bounds="pages of 1 and 2 samples")
def append_case(env):
    p, q = blank(env, "p", 1, 2, 1), blank(env, "q", 2, 2, 1)
    both = p.append(q)
    for x in EvaluationDataPage._fields:
        t, u, v = getattr(p, x), getattr(q, x), getattr(both, x)
        if t is None:
            env.check(v is None, "absent stays absent")
        else:
            env.eq(v, env.L(t) + env.L(u), "both pages in order")
    env.check(env.raises(lambda: p.append(blank(env, "r", 1, 2, 1, drop=["model_values"]))), "pages must hold the same fields")


@suite.case(bounds="3 samples, any episode and position numbers")
def sort_case(env):
    p = blank(env, "p", 3, 2, 1)
    key = [(a[0], b[0]) for a, b in zip(env.L(p.mdp_id), env.L(p.sequence_number))]
    env.assume(sand(*[snot(sand(key[i][0] == key[j][0], key[i][1] == key[j][1])) for i in range(3) for j in range(i)]))
    q = p.sort()
    for x in EvaluationDataPage._fields:
        t, u = getattr(p, x), getattr(q, x)
        if t is None:
            env.check(u is None, "absent stays absent")
            continue
        T, U = env.L(t), env.L(u)
        for i in range(3):
            rank = ssum(ite(sor(key[j][0] < key[i][0], sand(key[j][0] == key[i][0], key[j][1] < key[i][1])), 1, 0) for j in range(3) if j != i)
            for c in range(len(T[i])):
                env.eq(pick_at([U[k][c] for k in range(3)], rank), T[i][c], "each sample moves to its place")


def values_case(env, n, m, gamma):
    """discounted sum to the end of the episode, with gaps in the sequence numbers"""
    p = blank(env, "p", n, 2, m)
    gaps = [env.pick(f"gap{i}", [1, 2]) for i in range(n - 1)]
    seq = [0]
    for g in gaps:
        seq.append(seq[-1] + g)
    p = p._replace(sequence_number=torch.tensor(seq).reshape(n, 1), logged_metrics=p.logged_metrics if m else None)
    ids = [x[0] for x in env.L(p.mdp_id)]
    r, met = env.L(p.logged_rewards), env.L(p.logged_metrics) if m else None
    q = p.compute_values(gamma)
    def spec(col):
        out = list(col)
        for i in reversed(range(n - 1)):
            out[i] = col[i] + ite(ids[i] == ids[i + 1], gamma ** gaps[i] * out[i + 1], 0)
        return out
    env.eq(q.logged_values, [[x] for x in spec([x[0] for x in r])], "discounted rewards")
    if m:
        want = [spec([x[k] for x in met]) for k in range(m)]
        env.eq(q.logged_metrics_values, [[w[i] for w in want] for i in range(n)], "discounted metrics")
    else:
        env.check(q.logged_metrics_values is None, "no metrics")
    env.eq(p.logged_rewards, r, "the page is left as it was")


suite.case(bounds="3 samples, 2 metrics, any episodes, gaps of 1 or 2", n=3, m=2, gamma=0.5)(values_case)
suite.case(bounds="4 samples, any episodes, gaps of 1 or 2", n=4, m=0, gamma=0.75)(values_case)


def metric_case(env, a, m, i):
    """a metric is evaluated as if it were the reward"""
    p = blank(env, "p", 2, a, m)
    idx = env.ints("logged", 2, lo=0, hi=a - 1)
    p = p._replace(action_mask=torch.nn.functional.one_hot(idx, a).float())
    q = p.set_metric_as_reward(i, a)
    L = env.L
    cut = lambda t: [r[i * a:(i + 1) * a] for r in L(t)]
    env.eq(q.logged_rewards, [[r[i]] for r in L(p.logged_metrics)], "logged metric")
    env.eq(q.logged_values, [[r[i]] for r in L(p.logged_metrics_values)], "logged metric values")
    env.eq(q.model_rewards, cut(p.model_metrics), "predicted metric")
    env.eq(q.model_values, cut(p.model_metrics_values), "predicted metric values")
    env.eq(q.model_rewards_for_logged_action, [[pick_at(r, j)] for r, j in zip(cut(p.model_metrics), L(idx))], "predicted metric of the logged action")
    env.check(q.logged_metrics is None and q.model_metrics is None and q.logged_metrics_values is None and q.model_metrics_values is None, "no metrics remain")
    for x in ("mdp_id", "sequence_number", "logged_propensities", "action_mask", "model_propensities"):
        env.eq(getattr(q, x), L(getattr(p, x)), "the rest is kept")


suite.case(bounds="2 samples, 2 actions, first of 2 metrics", a=2, m=2, i=0)(metric_case)
suite.case(bounds="2 samples, 3 actions, second of 2 metrics", a=3, m=2, i=1)(metric_case)


def validate_case(env):
    """episodes must be whole and ordered"""
    p = blank(env, "p", 3, 2, 1)._replace(logged_values=torch.zeros(3, 1))
    ids, seq = [x[0] for x in env.L(p.mdp_id)], [x[0] for x in env.L(p.sequence_number)]
    ok = sand(*[implies(ids[i] == ids[i + 1], seq[i] < seq[i + 1]) for i in range(2)], snot(sand(ids[0] == ids[2], ids[0] != ids[1])))
    good = not env.raises(lambda: p.validate())
    env.check(ok if good else snot(ok), "accepted exactly when episodes are whole and in order")


suite.case(bounds="3 samples, any episode and position numbers")(validate_case)
