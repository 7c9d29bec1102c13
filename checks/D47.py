"""Trainers outside the Lightning family: evolution strategies and their workers, the step-by-step trainers, imitation."""
import types
import torch.nn as nn
from reagent.parameters import EvaluationParameters, EvolutionParameters, RLParameters
from reagent.training.rl_trainer_pytorch import RLTrainer
from reagent.training import imitator_training as im
from reagent.training.gradient_free import es_worker as ew
from reagent.training.gradient_free import evolution_pool as ep
from checks.common import *
from checks.D02 import softmax_spec

suite = Suite("D47", ["networks' outputs for a batch are arbitrary numbers with one trainable offset each, and lie in [-4, 4]; the optimizer records the gradient it is handed",
                      "rewards of individuals lie in [-4, 4]; they are equal or at least 1/8 apart"])

SIGMA = 0.5


class Opt:
    """records gradients; moves parameters against them by rate when it has one"""
    made = []

    def __init__(self, params, lr=None, **kw):
        self.params, self.lr, self.steps, self.cleared = list(params), lr, [], 0
        self.param_groups = [{"params": self.params}]
        Opt.made.append(self)

    @classmethod
    def make_optimizer(cls, params):
        return cls(params)

    def zero_grad(self):
        self.cleared += 1
        for p in self.params:
            p.grad = None

    def step(self):
        self.steps.append([None if p.grad is None else p.grad.clone() for p in self.params])
        if self.lr is not None:
            with torch.no_grad():
                for p in self.params:
                    p.sub_(self.lr * p.grad)


def flat(env, t):
    return [env.L(x) if not isinstance(x, S) else x for x in env.L(t.reshape(-1))]


class Pool(ep.EvolutionPool):
    """scores individuals with arbitrary numbers"""

    def compute_local_reward(self, individual):
        self.asked.append(individual)
        v = self.env.num(f"score{len(self.asked)}", -4, 4)
        self.given.append(v)
        return v


def pool_of(env, n, sizes, seed=3, lr=0.25, cls=Pool):
    Opt.made.clear()
    p = cls.__new__(cls)
    p.env, p.asked, p.given = env, [], []
    seeds = []
    before = len(env.draws("normal"))
    with env.patch(torch.optim, "Adam", Opt), env.patch(torch, "manual_seed", lambda s: seeds.append((s, len(env.draws("normal"))))):
        p.__init__(seed, EvolutionParameters(population_size=n, mutation_power=SIGMA, learning_rate=lr), sizes)
    return p, seeds, before


def children_are(env, p, since, label):
    """each child is the parent moved by fresh noise of the mutation's size"""
    noise = env.draws("normal")[since:]
    env.check(len(noise) == len(p.population_tensors) * len(p.parent_tensors), "noise of their own for every child and tensor")
    at = 0
    for c in p.population_tensors:
        for name, t in p.parent_tensors.items():
            ds = noise[at]
            at += 1
            while ds and isinstance(ds[0], list):
                ds = [x for r in ds for x in r]
            for x, m, d in zip(flat(env, c[name]), flat(env, t), ds):
                env.close([x], [m + SIGMA * wrap_(d)], label, 1e-4)


def wrap_(d):
    return d if isinstance(d, (S, float, int)) else wrap(d)


def start_case(env, n, sizes, seed):
    """a pool starts around a random parent; the same seed gives the same pool"""
    p, seeds, before = pool_of(env, n, sizes, seed)
    env.check(len(p.population_tensors) == n, "size of the population")
    env.check([s for s, _ in seeds] == [seed, seed], "seeded before the parent and before its children")
    env.check(seeds[0][1] == before, "nothing is drawn before seeding")
    env.check(all(list(c) == list(sizes) and all(list(c[k].shape) == list(v) for k, v in sizes.items()) for c in p.population_tensors + [p.parent_tensors]), "shapes")
    children_are(env, p, seeds[1][1], "children surround the parent")
    env.check(len(Opt.made) == 1 and Opt.made[0].lr == 0.25 and [id(x) for x in Opt.made[0].params] == [id(x) for x in p.parent_tensors.values()], "the optimizer moves the parent")


for kw in (dict(n=2, sizes={"w": [2]}, seed=3), dict(n=3, sizes={"w": [2], "b": [1, 2]}, seed=0), dict(n=1, sizes={"w": [1]}, seed=99999)):
    suite.case(bounds="up to 3 individuals of 2 tensors", **kw)(start_case)


def seed_case(env):
    s = env.inum("seed", 99990, 100010)
    bad = env.raises(lambda: pool_of(env, 1, {"w": [1]}, s), AssertionError)
    env.check(sor(sand(bad, s >= 100000), sand(snot(bad), s < 100000)), "seeds that would overlap with another round's are refused, and only those")


suite.case(bounds="seeds around the limit")(seed_case)


def gen_case(env, n, sizes, it, equal=False, lr=0.25):
    """the parent follows the children in proportion to how much better than average they did"""
    p, _, _ = pool_of(env, n, sizes, 7, lr)
    r = [env.num(f"r{i}", -4, 4) for i in range(n)]
    if equal:
        r = [r[0]] * n
    else:
        env.assume(sor(*[abs(r[i] - r[j]) >= 0.125 for i in range(n) for j in range(i)]))
    R = env.mk([unwrap(x) for x in r]) if env.sym else torch.tensor(r)
    old = {k: flat(env, t) for k, t in p.parent_tensors.items()}
    kids = [{k: flat(env, t) for k, t in c.items()} for c in p.population_tensors]
    seeds = []
    with env.patch(torch, "manual_seed", lambda s: seeds.append((s, len(env.draws("normal"))))):
        p.apply_global_reward(R, it)
    o = Opt.made[0]
    env.check([s for s, _ in seeds] == [it * 100000 + 7], "every round is seeded anew, the same on every machine")
    env.check(len(o.steps) == (0 if equal else 1), "a step is taken when the children differ")
    m = ssum(r) / n
    var = ssum((x - m) * (x - m) for x in r) / (n - 1)
    sd = ssqrt(var)
    for j, (k, t) in enumerate(p.parent_tensors.items()):
        now = flat(env, t)
        for e in range(len(now)):
            if equal:
                env.eq(now[e], old[k][e], "the parent stays")
                continue
            want = ssum((kids[i][k][e] - old[k][e]) * (r[i] - m) for i in range(n))
            g = flat(env, o.steps[0][j])[e]
            env.close([g * sd * (n * SIGMA)], [-want], "estimated gradient", 1e-3)
            env.close([now[e]], [old[k][e] - lr * g], "the parent moves", 1e-3)
    children_are(env, p, seeds[0][1], "new children surround the new parent")


for kw in (dict(n=2, sizes={"w": [1]}, it=1), dict(n=2, sizes={"w": [2]}, it=4), dict(n=2, sizes={"w": [1], "b": [1, 1]}, it=1), dict(n=3, sizes={"w": [1]}, it=2),
           dict(n=2, sizes={"w": [2]}, it=1, equal=True), dict(n=3, sizes={"w": [1], "b": [2]}, it=5, equal=True)):
    suite.case(bounds="up to 3 individuals of 2 tensors, one round", **kw)(gen_case)


def onemax_case(env, k):
    """the example pool rewards even positions for being large and odd ones for being small"""
    p = ep.OneMaxEvolutionPool.__new__(ep.OneMaxEvolutionPool)
    x = env.real("x", k, lo=-4, hi=4)
    got = p.compute_local_reward({"data": x})
    s = [ssigmoid(v) for v in env.L(x)]
    env.close([got.item()], [ssum(v if i % 2 == 0 else 1 - v for i, v in enumerate(s)) / k], "reward", 1e-4)


for k in (1, 2, 3, 4):
    suite.case(bounds="up to 4 numbers", k=k)(onemax_case)


def worker_case(env, n, nodes, epochs):
    """all machines average their rewards for the same individuals and apply the average"""
    p, _, _ = pool_of(env, n, {"w": [1]})
    group = object()
    applied, calls = [], []
    p.apply_global_reward = lambda r, it: applied.append((env.L(r), it))

    def all_reduce(t, op=None, group=None, async_op=False):
        k = len(calls)
        calls.append((op, group, async_op))
        extra = [env.num(f"other{k}.{i}", -4, 4) for i in range(n)] if nodes > 1 else [0] * n
        t.add_(env.mk([unwrap(x) for x in extra]) if env.sym else torch.tensor([float(x) for x in extra]))
        sums.append(extra)

    sums = []
    w = ew.EsWorker(p, p.es_params, group, nodes)
    quiet = types.SimpleNamespace(info=lambda *a: None)
    with env.patch(ew.distributed, "all_reduce", all_reduce), env.patch(ew, "logger", quiet):
        for k in range(epochs):
            at = len(p.given)
            got = w.run_epoch()
            mine = p.given[at:]
            env.check(len(mine) == n + 1, "every individual and the new parent are scored")
            env.check(all(a is b for a, b in zip(p.asked[at:], p.population_tensors + [p.parent_tensors])), "who is scored")
            op, g, late = calls[k]
            env.check(g is group and not late and op in (None, torch.distributed.ReduceOp.SUM), "summed over the worker's own group")
            env.check(len(applied) == k + 1 and applied[k][1] == k + 1 == w.iteration, "rounds are counted")
            for i in range(n):
                env.close([applied[k][0][i]], [(mine[i] + sums[k][i]) / nodes], "average over the machines", 1e-4)
            env.eq(got, mine[n], "the new parent's reward is returned")


for kw in (dict(n=2, nodes=1, epochs=1), dict(n=2, nodes=2, epochs=2), dict(n=3, nodes=3, epochs=1)):
    suite.case(bounds="up to 3 individuals, 3 machines, 2 rounds", **kw)(worker_case)


class Weights(nn.Module):
    def __init__(self, env, name, shared=None):
        super().__init__()
        self.w, self.b = nn.Parameter(env.real(name + ".w", 2)), nn.Parameter(env.real(name + ".b"))
        if shared is not None:
            self.s = shared


def blank(steps=1, **kw):
    tr = RLTrainer(kw.pop("rl", RLParameters()), False, loss_reporter=Reporter(), **kw)
    tr.minibatches_per_step = steps
    return tr


def soft_case(env, every, shared=False):
    """targets follow once per step, not once per minibatch, and sources never move"""
    tau = env.num("tau", 0, 1)
    com = nn.Parameter(env.real("com", 1)) if shared else None
    a, b = Weights(env, "src", com), Weights(env, "tgt", com)
    tr = blank()
    tr.minibatch = env.pick("mb", list(range(2 * every + 1)))
    A0, B0 = [[env.L(x) for x in n.parameters()] for n in (a, b)]
    tr._maybe_soft_update(a, b, tau, every)
    moved = tr.minibatch % every == 0
    for x, old in zip(a.parameters(), A0):
        env.eq(x.data, old, "the source is left alone")
    for x, src, old in zip(b.parameters(), A0, B0):
        if shared and x is com or not moved:
            env.eq(x.data, old, "left alone")
        else:
            mix = lambda s, t: [mix(p, q) for p, q in zip(s, t)] if isinstance(s, list) else tau * s + (1 - tau) * t
            env.close(env.L(x.data) if isinstance(old, list) else [env.L(x.data)], mix(src, old) if isinstance(old, list) else [mix(src, old)], "the target follows", 1e-4)


for kw in (dict(every=1), dict(every=2), dict(every=3, shared=True)):
    suite.case(bounds="up to 3 minibatches per step, any rate", **kw)(soft_case)


def accumulate_case(env, every, rounds):
    """gradients are averaged over the minibatches of a step"""
    tr = blank()
    p, still = nn.Parameter(torch.zeros(2)), nn.Parameter(torch.zeros(1))
    o = Opt([p, still])
    p.grad = None
    want, steps = [0, 0], 0
    for k in range(1, rounds + 1):
        tr.minibatch += 1
        g = env.real(f"g{k}", 2, lo=-8, hi=8)
        p.grad = g.clone() if p.grad is None else p.grad + g
        want = [a + b for a, b in zip(want, env.L(g))]
        tr._maybe_run_optimizer(o, every)
        if k % every == 0:
            steps += 1
            env.check(len(o.steps) == steps and o.cleared == steps and o.steps[-1][1] is None, "one step")
            for x, y in zip(env.L(o.steps[-1][0]), want):
                env.close([x], [y / every], "average gradient", 1e-4)
            env.check(p.grad is None, "cleared after the step")
            want = [0, 0]
        env.check(len(o.steps) == steps == o.cleared, "no step in between")


for kw in (dict(every=1, rounds=2), dict(every=2, rounds=5), dict(every=3, rounds=6)):
    suite.case(bounds="up to 3 minibatches per step, 6 minibatches", **kw)(accumulate_case)


def cpe_case(env, B, A, M, maxq, temp, loss="mse", every=1, mb=1):
    """reward and value heads are trained per metric, the reward first; their target follows"""
    s, ns = feat(env.real("s", B, 1)), feat(env.real("ns", B, 1))
    a, ai = one_hot(env, "a", B, A)
    na, _ = one_hot(env, "na", B, A)
    r, nt, dt = env.real("r", B, 1), env.mask("nt", B, 1), env.real("discount", B, 1, lo=0, hi=1)
    met = env.real("met", B, M) if M else None
    pm, pn = env.mask("pm", B, A), env.mask("pn", B, A)
    for m in (pm, pn):
        for i in range(B):
            env.assume(sor(*[x == 1 for x in env.L(m)[i]]))
    qs, qn = env.real("qs", B, A, lo=-4, hi=4), env.real("qn", B, A, lo=-4, hi=4)
    K = M + 1
    rn, qc, qct = env.net("rn", A * K), env.net("qc", A * K), env.net("qct", A * K)
    tr = blank(every, rl=RLParameters(maxq_learning=maxq, temperature=temp, q_network_loss=loss), metrics_to_score=[f"m{i}" for i in range(M)] or None,
               actions=[str(i) for i in range(A)], evaluation_parameters=EvaluationParameters(calc_cpe_in_training=True))
    Opt.made.clear()
    tr._initialize_cpe(rn, qc, qct, Opt)
    tr.minibatch = mb
    followed = []
    tr._soft_update = lambda x, y, tau: followed.append((x, y, tau))
    batch = types.SimpleNamespace(reward=r, extras=rlt.ExtraData(metrics=met), possible_next_actions_mask=pn, possible_actions_mask=pm, action=a, next_action=na)
    before = env.L(rn(s))
    idx = torch.argmax(a, dim=1, keepdim=True)
    lossv, rewards, props = tr._calculate_cpes(batch, s, ns, qs, qn, idx, dt, nt)
    RN, QC, QCT = before, env.L(qc(s)), env.L(qct(ns))
    L = env.L
    real = [[L(r)[i][0]] + (L(met)[i] if M else []) for i in range(B)]
    rp, qp = [], []
    for i in range(B):
        pi = softmax_spec(L(qn)[i], L(pn)[i] if maxq else L(na)[i], temp)
        for k in range(K):
            rp.append((pick_at(RN[i][k * A:(k + 1) * A], ai[i]), real[i][k]))
            nxt = ssum(p * v for p, v in zip(pi, QCT[i][k * A:(k + 1) * A]))
            qp.append((pick_at(QC[i][k * A:(k + 1) * A], ai[i]), real[i][k] + L(dt)[i][0] * ite(L(nt)[i][0] == 1, nxt, 0)))
        env.eq(props[i], softmax_spec(L(qs)[i], L(pm)[i] if maxq else L(a)[i], temp), "the policy's propensities")
        env.eq(rewards[i], RN[i][:A], "rewards of the actions")
    env.eq(lossv, mse(rp), "loss of the reward head")
    now = mb % every == 0
    env.check(len(Opt.made) == 2 and all(len(o.steps) == int(now) for o in Opt.made), "when steps are taken")
    env.check(followed == ([(qc, qct, tr.tau)] if now else []), "the target follows")
    n = B * K
    for net, pairs, o, mse_like in ((rn, rp, Opt.made[0], True), (qc, qp, Opt.made[1], loss == "mse")):
        env.check(len(o.params) == len(list(net.parameters())) and o.params[0] is net.theta, "each head has its own optimizer")
        grad = o.steps[0][0] if now else net.theta.grad
        for k in range(K):
            for j in range(A):
                d = [(pairs[i * K + k][0] - pairs[i * K + k][1], ai[i] == j) for i in range(B)]
                g = ssum(ite(c, 2 * x if mse_like else clamp(x, -1, 1), 0) for x, c in d) / n
                env.close([L(grad)[k * A + j]], [g / every if now else g], "gradient of the head", 1e-3)
    env.check(qct.theta.grad is None, "the target is not trained")


for kw in (dict(B=1, A=2, M=0, maxq=True, temp=1.0), dict(B=1, A=2, M=1, maxq=True, temp=0.5), dict(B=2, A=2, M=0, maxq=False, temp=1.0), dict(B=1, A=2, M=1, maxq=False, temp=1.0, loss="huber"),
           dict(B=1, A=2, M=0, maxq=True, temp=1.0, every=2, mb=1), dict(B=1, A=2, M=0, maxq=True, temp=1.0, every=2, mb=2), dict(B=1, A=3, M=1, maxq=False, temp=1.0)):
    suite.case(bounds="up to 2 transitions, 3 actions, 1 metric besides the reward", **kw)(cpe_case)


def setup_case(env):
    """what a trainer is told is what it uses; incomplete or unknown settings are refused"""
    steps, gamma, tau = env.pick("steps", [None, 1, 3]), env.pick("gamma", [0.0, 0.5]), env.pick("tau", [0.1, 1.0])
    tr = blank(rl=RLParameters(gamma=gamma, target_update_rate=tau, multi_steps=steps, maxq_learning=bool(env.flag("maxq")), use_seq_num_diff_as_time_diff=bool(env.flag("seq"))),
               metrics_to_score=["x"])
    rl = tr.rl_parameters
    env.check(tr.gamma == gamma and tr.tau == tau and tr.multi_steps == steps, "settings")
    env.check(tr.maxq_learning == rl.maxq_learning and tr.use_seq_num_diff_as_time_diff == rl.use_seq_num_diff_as_time_diff, "settings")
    env.check(tr.metrics_to_score == ["x", "reward"] and blank().metrics_to_score == ["reward"], "the reward is scored as well")
    tr.multi_steps, tr.maxq_learning, tr.use_seq_num_diff_as_time_diff = 5, not rl.maxq_learning, not rl.use_seq_num_diff_as_time_diff
    env.check(tr.multi_steps == 5 and tr.maxq_learning == (not rl.maxq_learning) and tr.use_seq_num_diff_as_time_diff == (not rl.use_seq_num_diff_as_time_diff), "overridden")
    env.refuses(lambda: blank(rl=RLParameters(q_network_loss="hinge")), Exception)
    env.refuses(lambda: tr.num_actions, AssertionError)
    env.check(blank(actions=["a", "b"]).num_actions == 2, "number of actions")
    on = EvaluationParameters(calc_cpe_in_training=True)
    for missing in (0, 1, 2):
        t = blank(actions=["a"], evaluation_parameters=on)
        env.refuses(lambda: t._initialize_cpe(*[None if k == missing else env.net(f"n{missing}{k}", 1) for k in range(3)], Opt), AssertionError)
    off = blank(actions=["a"], evaluation_parameters=EvaluationParameters(calc_cpe_in_training=False))
    off._initialize_cpe(None, None, None, Opt)
    env.check(off._calculate_cpes(*[None] * 8) == (None, None, None), "no evaluation unless asked for")


suite.case(bounds="3 horizons, 2 discounts, 2 rates")(setup_case)


class Whole(RLTrainer):
    def warm_start_components(self):
        return ["a", "b"]


def warm_case(env):
    """a trainer's state is that of its components, and loads into another"""
    made = []
    for k in "xy":
        t = Whole(RLParameters(), False)
        t.a, t.b = Weights(env, k + "a"), Weights(env, k + "b")
        made.append(t)
    x, y = made
    sd = x.state_dict()
    env.check(sorted(sd) == ["a", "b"], "components")
    y.load_state_dict(sd)
    for c in "ab":
        for p, q in zip(getattr(x, c).parameters(), getattr(y, c).parameters()):
            env.eq(q.data, env.L(p.data), "loaded")
    env.refuses(lambda: blank().state_dict(), NotImplementedError)


suite.case(bounds="2 components")(warm_case)


class Guess(nn.Module):
    def __init__(self, script):
        super().__init__()
        self.script, self.seen = list(script), []
        self.theta = nn.Parameter(torch.zeros(tuple(script[0].shape)))

    def forward(self, x):
        self.seen.append(x)
        return self.script[len(self.seen) - 1] + self.theta


def imitate_case(env, B, A, every, rounds, train=True):
    """imitators learn the logged action by cross entropy, averaging over the minibatches of a step; the answer is how often they were right"""
    outs = [env.real(f"o{k}", B, A, lo=-4, hi=4) for k in range(rounds)]
    net = Guess(outs)
    Opt.made.clear()
    tr = im.ImitatorTrainer(net, minibatches_per_step=every, optimizer=Opt)
    o = Opt.made[0]
    env.check(o.params == [net.theta], "what is trained")
    total = [[0] * A for _ in range(B)]
    steps = 0
    for k in range(1, rounds + 1):
        a, ai = one_hot(env, f"a{k}", B, A)
        x = env.real(f"x{k}", B, 1)
        got = tr.train(types.SimpleNamespace(training_input=types.SimpleNamespace(state=feat(x), action=a)), train=train)
        env.check(net.seen[k - 1] is x, "sees the state")
        O = env.L(outs[k - 1])
        right = 0
        for i in range(B):
            for j in range(A):
                for l in range(j):
                    env.assume(sor(O[i][j] - O[i][l] >= 0.01, O[i][l] - O[i][j] >= 0.01))
            right = right + ite(argmax_first(O[i]) == ai[i], 1, 0)
            sm = softmax_spec(O[i], [1] * A, 1)
            total[i] = [t + (p - ite(ai[i] == j, 1, 0)) / B for j, (t, p) in enumerate(zip(total[i], sm))]
        env.close([got], [right / B], "share of right guesses", 6e-4)
        if train and k % every == 0:
            steps += 1
            if len(o.steps) == steps:
                for i in range(B):
                    env.close(env.L(o.steps[-1][0])[i], [t / every for t in total[i]], "gradient of the cross entropy", 1e-3)
            total = [[0] * A for _ in range(B)]
        env.check(len(o.steps) == steps, "when steps are taken")
    if not train:
        env.check(net.theta.grad is None, "nothing is trained")


for kw in (dict(B=1, A=2, every=1, rounds=1), dict(B=2, A=2, every=1, rounds=1), dict(B=1, A=2, every=2, rounds=2), dict(B=1, A=2, every=2, rounds=1), dict(B=1, A=3, every=1, rounds=1),
           dict(B=2, A=2, every=1, rounds=1, train=False), dict(B=1, A=2, every=3, rounds=3)):
    suite.case(bounds="up to 2 examples, 3 actions, 3 minibatches", **kw)(imitate_case)
