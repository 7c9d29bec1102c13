"""Slate-ranking and reward-network trainers: the losses they descend and when they step."""
import types
import torch.nn as nn
from reagent.parameters import Seq2SlateParameters
from reagent.parameters_seq2slate import IPSClamp, IPSClampMethod, RewardClamp, SimulationParameters
from reagent.model_utils.seq2slate_utils import Seq2SlateMode as Mode
from reagent.training.ranking.helper import ips_clamp
from reagent.training.ranking import seq2slate_sim_trainer as sim
from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer
from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from reagent.training import reward_network_trainer as rn
from reagent.evaluation.reward_net_evaluator import RewardNetEvaluator
from checks.common import *

suite = Suite("D30", ["the networks' outputs for a batch are arbitrary numbers with one trainable offset each; the optimizer records the gradient it is handed",
                      "log-probabilities lie in [-3, 0], rewards in [-4, 4], propensities in [1/8, 1]"])


class Opt:
    """optimizer that records the gradients at every step"""

    def __init__(self):
        self.grads = []

    def make_optimizer(self, params):
        self.params = list(params)
        return self

    def zero_grad(self):
        for p in self.params:
            p.grad = None

    def step(self):
        self.grads.append([None if p.grad is None else p.grad.clone() for p in self.params])


class Net(nn.Module):
    """answers each call with the next tensor of its script, plus a trainable offset"""

    def __init__(self, script, out, mode=None, n=None):
        super().__init__()
        self.script, self.make, self.mode, self.seen = list(script), out, mode, []
        self.theta = nn.Parameter(torch.zeros(tuple(script[0].shape)))
        self.max_src_seq_len = n
        self.train_flags = []

    def forward(self, batch, mode=None, **kw):
        self.seen.append((batch, mode, kw))
        self.train_flags.append(self.training)
        return self.make(self.script[len(self.seen) - 1] + self.theta)


def stale(opts):
    """gradients left over from something else"""
    for o in opts:
        for p in o.params:
            p.grad = torch.full(tuple(p.shape), 7.0)


def lp_net(script, n=None):
    return Net(script, lambda t: rlt.RankingOutput(log_probs=t), n=n)


def batch(env, B, n, T, tag, action=None, optimal=None, slate=True):
    """a ranking batch with arbitrary rewards and propensities"""
    act = action if action is not None else torch.arange(T).repeat(B, 1)
    r = env.real(f"r{tag}", B, 1, lo=-4, hi=4) if slate else None
    pr = None if slate else env.real(f"pr{tag}", B, T, lo=0, hi=4)
    p = env.real(f"p{tag}", B, 1, lo=0.125, hi=1)
    x = rlt.PreprocessedRankingInput.from_input(state=torch.zeros(B, 1), candidates=torch.zeros(B, n, 1), device=torch.device("cpu"), action=act, optimal_action=optimal,
                                                logged_propensities=p, slate_reward=r, position_reward=pr)
    return x, (None if r is None else [v[0] for v in env.L(r)]), (None if pr is None else env.L(pr)), [v[0] for v in env.L(p)]


def clamp_of(kind):
    return None if kind is None else IPSClamp(clamp_method=IPSClampMethod[kind], clamp_max=1.5)


def clamped(w, kind):
    """(clamped weight, slope)"""
    if kind is None:
        return w, 1
    return (ite(w > 1.5, 1.5 if kind == "UNIVERSAL" else 0, w), ite(w > 1.5, 0, 1))


def clamp_case(env, n):
    """importance weights are cut at the limit, or dropped beyond it, or left alone"""
    w = env.real("w", n, 1, lo=0, hi=8)
    W = [r[0] for r in env.L(w)]
    for kind in (None, "UNIVERSAL", "AGGRESSIVE"):
        o = ips_clamp(w, clamp_of(kind))
        env.shape(o, (n, 1), "clamped weights")
        for a, b in zip(env.L(o), W):
            env.eq(a[0], clamped(b, kind)[0], f"weight under {kind}")
        env.check(o is not w, "a new tensor")


suite.case(bounds="2 weights", n=2)(clamp_case)


def step(env, tr, x):
    """one batch (a numpy array of symbols becomes a tensor through its list)"""
    if not env.sym:
        return tr.train(x)
    with env.patch(torch, "FloatTensor", lambda a: torch.tensor(a.tolist())):
        return tr.train(x)


def reinforce_case(env, B, clamp, baseline, steps, warm=0, interval=1):
    """the policy ascends (clamped importance weight) x (reward - baseline), averaged over the batch; the baseline descends its squared error;
    gradients of an interval add up, and nothing reaches the policy during warm-up"""
    lp = [env.real(f"lp{k}", B, 1, lo=-3, hi=0) for k in range(steps)]
    bl = [env.real(f"bl{k}", B, 1, lo=-4, hi=4) for k in range(steps)]
    net, base = lp_net(lp), Net(bl, lambda t: t) if baseline else None
    po, bo = Opt(), Opt()
    tr = Seq2SlateTrainer(net, B, Seq2SlateParameters(ips_clamp=clamp_of(clamp)), baseline_net=base, baseline_warmup_num_batches=warm, policy_optimizer=po, baseline_optimizer=bo,
                          policy_gradient_interval=interval)
    acc, due = [0] * B, []
    told = []
    tr.notify_observers = lambda **kw: told.append(kw)
    for k in range(steps):
        x, R, _, P = batch(env, B, 3, 2, k)
        L, V = [v[0] for v in env.L(lp[k])], [v[0] for v in env.L(bl[k])] if baseline else [0] * B
        W = [sexp(l) / p for l, p in zip(L, P)]
        for w in W:
            env.assume(sor(w < 1.49, w > 1.51))
        step(env, tr, x)
        env.check(net.seen[-1][0] is x and net.seen[-1][1] == Mode.PER_SEQ_LOG_PROB_MODE, "the logged slates are scored")
        if not baseline or k + 1 > warm:
            acc = [a - clamped(w, clamp)[1] * w * (r - v) / B for a, w, r, v in zip(acc, W, R, V)]
            if (k + 1) % interval == 0:
                due.append(acc)
                acc = [0] * B
        if baseline:
            env.check(len(bo.grads) == k + 1, "the baseline learns from every batch")
            env.eq(bo.grads[-1][0], [[2 * (v - r) / B] for v, r in zip(V, R)], "baseline gradient")
        t = told[-1]
        env.eq(t["train_ips_ratio"], W, "reported importance weights")
        env.eq(t["train_clamped_ips_ratio"], [clamped(w, clamp)[0] for w in W], "reported clamped weights")
        env.eq(t["train_ips_score"], [ssum(-w * r for w, r in zip(W, R)) / B], "reported score")
        env.eq(t["train_clamped_ips_score"], [ssum(-clamped(w, clamp)[0] * r for w, r in zip(W, R)) / B], "reported clamped score")
        env.eq(t["train_advantages"], [r - v for r, v in zip(R, V)], "reported advantages")
        env.eq(t["train_logged_slate_rank_probs"], [sexp(l) for l in L], "reported probabilities of the logged slates")
        env.eq(t["train_baseline_loss"], [ssum((v - r) * (v - r) for v, r in zip(V, R)) / B] if baseline else [0], "reported baseline loss")
    env.check(len(po.grads) == len(due), "policy steps")
    for g, w in zip(po.grads, due):
        env.eq(g[0], [[v] for v in w], "policy gradient")
    env.check(po.params[0] is net.theta and (not baseline or bo.params[0] is base.theta), "each optimizer owns its network")


for how in (None, "UNIVERSAL", "AGGRESSIVE"):
    suite.case(bounds="2 logged slates", B=2, clamp=how, baseline=how is None, steps=1)(reinforce_case)
suite.case(bounds="2 logged slates, 4 batches, a step every 2", B=1, clamp=None, baseline=False, steps=4, interval=2)(reinforce_case)
suite.case(bounds="2 logged slates, 3 batches of which the first warms up", B=1, clamp=None, baseline=True, steps=3, warm=0, interval=1)(reinforce_case)


def warmup_case(env, warm, steps):
    """before the warm-up count only the baseline learns, beyond it the policy does"""
    lp, bl = [env.real(f"lp{k}", 1, 1, lo=-3, hi=0) for k in range(steps)], [env.real(f"bl{k}", 1, 1, lo=-4, hi=4) for k in range(steps)]
    net, base, po, bo = lp_net(lp), Net(bl, lambda t: t), Opt(), Opt()
    tr = Seq2SlateTrainer(net, 1, Seq2SlateParameters(), baseline_net=base, baseline_warmup_num_batches=warm, policy_optimizer=po, baseline_optimizer=bo)
    for k in range(steps):
        x, R, _, P = batch(env, 1, 2, 2, k)
        had = len(po.grads)
        step(env, tr, x)
        env.check(len(bo.grads) == k + 1, "the baseline learns from every batch")
        if k + 1 < warm:
            env.check(len(po.grads) == 0, "the policy waits for the baseline")
        if k + 1 > warm:
            env.check(len(po.grads) == had + 1, "the policy learns after warm-up")
            env.eq(po.grads[-1][0], [[-sexp(env.L(lp[k])[0][0]) / P[0] * (R[0] - env.L(bl[k])[0][0])]], "policy gradient after warm-up")


suite.case(bounds="4 batches, warm-up 2", warm=2, steps=4)(warmup_case)


def differentiable_case(env, B, n, T, clamp, on, acts):
    """loss: importance weight x sum over positions of reward x (- log probability of the placed item) / log(position + 1), averaged over the batch"""
    lp = env.real("lp", B, T, n + 2, lo=-3, hi=0)
    net, po = lp_net([lp], n), Opt()
    tr = Seq2SlateDifferentiableRewardTrainer(net, Seq2SlateParameters(on_policy=on, ips_clamp=clamp_of(clamp)), B, policy_optimizer=po)
    act = torch.tensor(acts)
    x, _, PR, P = batch(env, B, n, T, "", action=act, slate=False)
    L = env.L(lp)
    chosen = [[L[b][t][acts[b][t] + 2] for t in range(T)] for b in range(B)]
    W = [1 if on else sexp(ssum(c)) / p for c, p in zip(chosen, P)]
    if not on:
        for w in W:
            env.assume(sor(w < 1.49, w > 1.51))
    disc = (1.0 / torch.log(torch.arange(T).float() + 2.0)).tolist()
    inner = [ssum(-c[t] * pr[t] * disc[t] for t in range(T)) for c, pr in zip(chosen, PR)]
    out = tr.train(x)
    env.check(net.seen[0][0] is x and net.seen[0][1] == Mode.PER_SYMBOL_LOG_PROB_DIST_MODE, "the logged slates are scored symbol by symbol")
    env.check(len(po.grads) == 1, "one step")
    CW = [clamped(w, None if on else clamp) for w in W]
    env.eq(out["sl"], ssum(c[0] * i for c, i in zip(CW, inner)) / B, "loss", 1e-4)
    g = env.L(po.grads[0][0])
    for b in range(B):
        for t in range(T):
            for c in range(n + 2):
                want = (CW[b][1] * W[b] * inner[b] - CW[b][0] * disc[t] * PR[b][t]) / B if c == acts[b][t] + 2 else 0
                env.eq(g[b][t][c], want, "gradient", 1e-4)


for how, on in ((None, False), ("UNIVERSAL", False), ("AGGRESSIVE", False), (None, True)):
    suite.case(bounds="2 slates of 2 out of 3", B=2, n=3, T=2, clamp=how, on=on, acts=[[2, 0], [1, 2]])(differentiable_case)


def teacher_case(env, B, n, T, steps, interval, opt):
    """descends the negative log-probability of the ground-truth slate, per example; gradients of an interval add up"""
    lp = [env.real(f"lp{k}", B, T, n + 2, lo=-3, hi=0) for k in range(steps)]
    net, po = lp_net(lp, n), Opt()
    tr = Seq2SlateTeacherForcingTrainer(net, Seq2SlateParameters(), B, policy_optimizer=po, policy_gradient_interval=interval)
    want = [[[(-steps if False else 0) for _ in range(n + 2)] for _ in range(T)] for _ in range(B)]
    for k in range(steps):
        x, *_ = batch(env, B, n, T, k, optimal=torch.tensor(opt[k]))
        _, loss = tr.train(x)
        L = env.L(lp[k])
        env.check(net.seen[-1][0] is x and net.seen[-1][1] == Mode.PER_SYMBOL_LOG_PROB_DIST_MODE, "symbol by symbol")
        env.eq(loss, ssum(-L[b][t][opt[k][b][t] + 2] for b in range(B) for t in range(T)) / B, "loss")
        for b in range(B):
            for t in range(T):
                want[b][t][opt[k][b][t] + 2] -= 1 / B
        env.check(len(po.grads) == (k + 1) // interval, "steps")
        if (k + 1) % interval == 0:
            env.eq(po.grads[-1][0], want, "gradient")
            want = [[[0] * (n + 2) for _ in range(T)] for _ in range(B)]


suite.case(bounds="2 slates of 2 out of 3, 1 step", B=2, n=3, T=2, steps=1, interval=1, opt=[[[2, 1], [0, 2]]])(teacher_case)
suite.case(bounds="1 slate of 2 out of 2, 4 batches, a step every 2", B=1, n=2, T=2, steps=4, interval=2, opt=[[[0, 1]], [[1, 0]], [[1, 0]], [[0, 1]]])(teacher_case)


def pairwise_case(env, B, T):
    """descends the divergence of softmax(scores) from the position rewards, averaged over examples"""
    sc = env.real("sc", B, T, lo=-3, hi=3)
    net, po = Net([sc], lambda t: rlt.RankingOutput(encoder_scores=t)), Opt()
    tr = Seq2SlatePairwiseAttnTrainer(net, B, policy_optimizer=po)
    stale([po])
    x, _, PR, _ = batch(env, B, T, T, "", slate=False)
    for r in PR:
        for v in r:
            env.assume(v > 0.125)
    told = []
    tr.notify_observers = lambda **kw: told.append(kw)
    out = tr.train(x)
    env.check(net.seen[0][0] is x and net.seen[0][1] == Mode.ENCODER_SCORE_MODE, "scores of the logged slate")
    S = env.L(sc)
    loss, grad = 0, []
    for s, pr in zip(S, PR):
        e = [sexp(v) for v in s]
        Z = ssum(e)
        loss = loss + ssum(p * (slog(p) - (v - slog(Z))) for p, v in zip(pr, s)) / B
        grad.append([(ei / Z * ssum(pr) - p) / B for ei, p in zip(e, pr)])
    env.eq(out["cross_entropy_loss"], loss, "loss", 1e-4)
    env.eq(told[0]["cross_entropy_loss"], loss, "reported loss", 1e-4)
    env.eq(po.grads[0][0], grad, "gradient", 1e-4)


suite.case(bounds="2 slates of 2", B=2, T=2)(pairwise_case)
suite.case(bounds="1 slate of 3", B=1, T=3)(pairwise_case)


def sim_case(env, B, n, T, power, clampr, penalty, picks, retry=False):
    """the simulated reward is the weighted sum of powered network rewards, clamped, plus the penalty times how close the slate is to the shown order;
    it is handed on with the sampled slate and its probability"""
    prob = env.real("prob", B, 1, lo=0.125, hi=1)
    items, st = env.real("items", B, n, 1, lo=-2, hi=2), env.real("st", B, 1, lo=-2, hi=2)
    ra, rb = env.real("ra", B, 1, lo=0.25, hi=2), env.real("rb", B, 1, lo=0.25, hi=2)
    acts = torch.tensor(picks)

    class Ranker(nn.Module):
        max_src_seq_len, max_tgt_seq_len = n, T
        calls = []

        def forward(self, x, mode, tgt_seq_len, greedy):
            self.calls.append((mode, tgt_seq_len, greedy))
            a = acts + 2
            if retry and len(self.calls) == 1:
                a = a.clone()
                a[-1, -1] = 1
            return rlt.RankingOutput(ranked_tgt_out_idx=a, ranked_per_seq_probs=prob)

    Ranker.calls = []
    net = Ranker()
    net.w = nn.Parameter(torch.zeros(1))
    seen = []

    def reward(out):
        def f(state, src, slate, mask, idx):
            env.eq(state, env.L(st), "state given to the reward network")
            env.eq(src, env.L(items), "candidates given to the reward network")
            env.eq(slate, [[env.L(items)[b][i] for i in picks[b]] for b in range(B)], "slate given to the reward network")
            env.eq(idx, [[i + 2 for i in r] for r in picks], "indices given to the reward network")
            seen.append(out)
            return out
        return f

    nets = {"a": reward(ra), "b": reward(rb)}
    par = Seq2SlateParameters(simulation=SimulationParameters(reward_name_weight={"a": 0.5, "b": -2.0}, reward_name_power={"a": 1, "b": power}, reward_name_path={"a": "A", "b": "B"},
                                                              reward_clamp=clampr and RewardClamp(*clampr), distance_penalty=penalty))
    tr = sim.Seq2SlateSimulationTrainer(net, B, par, policy_optimizer=Opt(), baseline_optimizer=Opt())
    got = []
    tr.trainer.train = lambda b: got.append(b) or "done"
    loads = []
    x = rlt.PreprocessedRankingInput.from_input(state=st, candidates=items, device=torch.device("cpu"), action=torch.arange(T).repeat(B, 1))
    with env.patch(sim, "_load_reward_net", lambda paths, gpu: loads.append(paths) or nets):
        env.check(tr.train(x) == "done", "the inner trainer's result is returned")
        seen1, calls1 = len(seen), list(Ranker.calls)
        tr.train(x)
    env.check(loads == [{"a": "A", "b": "B"}] and seen1 == 2 and len(seen) == 4, "reward networks are loaded and asked once each")
    env.check(calls1 == [(Mode.RANK_MODE, T, False)] * (2 if retry else 1), "slates are sampled until they are valid")
    y = got[0]
    env.eq(y.tgt_out_idx, [[i + 2 for i in r] for r in picks], "slate")
    env.eq(y.tgt_out_probs, env.L(prob), "probability of the slate")
    env.eq(y.state.float_features, env.L(st), "state")
    env.eq(y.src_seq.float_features, env.L(items), "candidates")
    for b in range(B):
        a, c = env.L(ra)[b][0], env.L(rb)[b][0]
        r = 0.5 * a - 2 * (c * c if power == 2 else c)
        if clampr:
            r = clamp(r, *[v if v is not None else w for v, w in zip(clampr, (-1000, 1000))])
        if penalty is not None:
            s = picks[b]
            dist = sum(s[i] > s[j] for i in range(T) for j in range(i + 1, T)) + sum(v - i for i, v in enumerate(s))
            r = r + penalty * (n * (n - 1) / 2 - dist)
        env.eq(env.L(y.slate_reward)[b][0], r, "simulated reward", 1e-5)


suite.case(bounds="2 slates, two reward networks", B=2, n=3, T=2, power=2, clampr=None, penalty=None, picks=[[1, 0], [2, 1]])(sim_case)
suite.case(bounds="2 slates, clamped, penalised", B=2, n=4, T=3, power=1, clampr=(-1.0, 0.125), penalty=-0.25, picks=[[3, 0, 2], [0, 1, 3]])(sim_case)
suite.case(bounds="1 slate, one-sided clamp, invalid draw repeated", B=1, n=3, T=3, power=1, clampr=(-1.0, None), penalty=2.0, picks=[[2, 1, 0]], retry=True)(sim_case)


def reward_case(env, B, kind, threshold, ranking, steps=1):
    """the reward network descends its loss, averaged over the samples whose reward is not abnormal"""
    lo, hi = (0.0625, 0.9375) if kind == "BCELoss" else (-4, 4)
    pred = [env.real(f"pred{k}", B, 1, lo=lo, hi=hi) for k in range(steps)]
    tgt = [env.real(f"r{k}", B, 1, lo=0 if kind == "BCELoss" else -4, hi=1 if kind == "BCELoss" else 4) for k in range(steps)]
    net, po = Net(pred, lambda t: types.SimpleNamespace(predicted_reward=t)), Opt()
    tr = rn.RewardNetTrainer(net, optimizer=po, minibatch_size=B, loss_type=rn.LossFunction[kind], reward_ignore_threshold=threshold)
    for k in range(steps):
        P, R = [v[0] for v in env.L(pred[k])], [v[0] for v in env.L(tgt[k])]
        for p, r in zip(P, R):
            if threshold is not None:
                env.assume(sor(r < threshold - 0.01, r > threshold + 0.01))
            env.assume(sor(p < r - 0.01, p > r + 0.01))
            env.assume(sor(sabs(p - r) < 0.99, sabs(p - r) > 1.01))
        keep = [True if threshold is None else bool(r <= threshold) for r in R]
        x = batch_reward(tgt[k], ranking)
        if not any(keep):
            env.refuses(lambda: tr.train(x))
            return
        n = sum(keep)
        loss = tr.train(x)

        def term(p, r):
            d = p - r
            if kind == "MSE":
                return d * d, 2 * d
            if kind == "L1Loss":
                return sabs(d), ite(d > 0, 1, -1)
            if kind == "SmoothL1Loss":
                return ite(sabs(d) < 1, d * d / 2, sabs(d) - 0.5), ite(sabs(d) < 1, d, ite(d > 0, 1, -1))
            return -(r * smax(slog(p), -100) + (1 - r) * smax(slog(1 - p), -100)), (p - r) / (p * (1 - p))

        ts = [term(p, r) for p, r in zip(P, R)]
        env.eq(loss, ssum(t[0] for t, u in zip(ts, keep) if u) / n, "loss", 1e-4)
        env.check(len(po.grads) == k + 1, "a step per batch")
        env.eq(po.grads[-1][0], [[t[1] / n if u else 0] for t, u in zip(ts, keep)], "gradient", 1e-4)


def batch_reward(r, ranking):
    if ranking:
        return rlt.PreprocessedRankingInput.from_input(state=torch.zeros(r.shape[0], 1), candidates=torch.zeros(r.shape[0], 2, 1), device=torch.device("cpu"), slate_reward=r)
    return types.SimpleNamespace(reward=r)


for kind in ("MSE", "SmoothL1Loss", "L1Loss", "BCELoss"):
    suite.case(bounds="2 samples", B=2, kind=kind, threshold=None, ranking=True)(reward_case)
    suite.case(bounds="2 samples, rewards beyond the threshold ignored", B=2, kind=kind, threshold=0.5, ranking=kind == "MSE")(reward_case)
suite.case(bounds="1 sample, 2 steps", B=1, kind="MSE", threshold=None, ranking=False, steps=2)(reward_case)


def reward_eval_case(env, B, pages, threshold):
    """evaluation averages the loss over the pages with nothing ignored, lists rewards and predictions in order, starts afresh, keeps the best model"""
    pred = [env.real(f"pred{k}", B, 1, lo=-4, hi=4) for k in range(2 * pages)]
    tgt = [env.real(f"r{k}", B, 1, lo=-4, hi=4) for k in range(2 * pages)]
    net = Net(pred, lambda t: types.SimpleNamespace(predicted_reward=t))
    tr = rn.RewardNetTrainer(net, optimizer=Opt(), minibatch_size=B, loss_type=rn.LossFunction.MSE, reward_ignore_threshold=threshold)
    ev = RewardNetEvaluator(tr)
    losses, made = [], []
    net.__deepcopy__ = None

    with env.patch(rn, "dummy", None):
        from reagent.evaluation import reward_net_evaluator as mod
        with env.patch(mod, "copy", types.SimpleNamespace(deepcopy=lambda m: made.append(m) or f"copy{len(made)}")):
            for rnd in range(2):
                ks = range(rnd * pages, (rnd + 1) * pages)
                net.train(rnd == 0)
                for k in ks:
                    ev.evaluate(batch_reward(tgt[k], k % 2 == 0))
                    env.check(net.training == (rnd == 0), "the network's mode is restored")
                env.check(not any(net.train_flags), "evaluated in evaluation mode")
                res = ev.evaluate_post_training()
                flat = lambda ts: [v[0] for k in ks for v in env.L(ts[k])]
                L = ssum(mse(list(zip([v[0] for v in env.L(pred[k])], [v[0] for v in env.L(tgt[k])]))) for k in ks) / pages
                losses.append(L)
                env.eq(res["loss"], L, "mean loss", 1e-4)
                env.eq(res["rewards"], flat(tgt), "rewards in order")
                env.eq(res["pred_rewards"], flat(pred), "predictions in order")
                if rnd == 0:
                    env.check(made == [net] and ev.best_model == "copy1", "the first model is the best so far")
                else:
                    better = bool(L < losses[0])
                    env.check(len(made) == (2 if better else 1) and ev.best_model == ("copy2" if better else "copy1"), "the model of least loss is kept")
                env.eq(ev.best_model_loss, L if rnd == 0 else smin(L, losses[0]), "least loss", 1e-4)


suite.case(bounds="2 samples, 1 page, twice", B=2, pages=1, threshold=0.5)(reward_eval_case)
suite.case(bounds="1 sample, 2 pages, twice", B=1, pages=2, threshold=None)(reward_eval_case)
