"""Target networks: the Polyak update itself, and which parameters every trainer pairs."""
from torch import nn
from reagent.optimizer.soft_update import SoftUpdate
from checks.common import *

suite = Suite("D03", ["parameters are real valued"])


def soft_case(env, shapes, steps, shared, tau=None):
    tau = env.num("tau", 0, 1) if tau is None else tau
    src = [env.real(f"s{i}", *sh, grad=True) for i, sh in enumerate(shapes)]
    tgt = [env.real(f"t{i}", *sh, grad=True) for i, sh in enumerate(shapes)]
    common = env.real("c", 2, grad=True) if shared else None
    S0, T0 = [env.L(x) for x in src], [env.L(x) for x in tgt]
    C0 = env.L(common) if shared else None
    o = SoftUpdate(tgt + [common] * shared, src + [common] * shared, tau=tau)
    n = 0
    def closure():
        return torch.ones(1)
    for k in range(steps):
        o.step(closure if k == 0 else None)
    def mix(a, b):
        if isinstance(a, list):
            return [mix(x, y) for x, y in zip(a, b)]
        for _ in range(steps):
            a = tau * b + (1 - tau) * a
        return a
    for i in range(len(shapes)):
        env.eq(src[i], S0[i], f"source parameter {i} is unchanged")
        env.eq(tgt[i], mix(T0[i], S0[i]), f"target parameter {i}")
    if shared:
        env.eq(common, C0, "a parameter shared by both networks is unchanged")


suite.case(bounds="parameters of shape (2,), (2,1), (); any rate in [0,1]; 1 step", shapes=[(2,), (2, 1), ()], steps=1, shared=True)(soft_case)
suite.case(bounds="parameter of shape (2,); any rate in [0,1]; 2 steps", shapes=[(2,)], steps=2, shared=False)(soft_case)
suite.case(bounds="rate 0", shapes=[(2,)], steps=1, shared=False, tau=0.0)(soft_case)
suite.case(bounds="rate 1", shapes=[(2,)], steps=1, shared=False, tau=1.0)(soft_case)


def tau_case(env):
    tau = env.num("tau", -2, 3)
    a, b = torch.ones(2, requires_grad=True), torch.zeros(2, requires_grad=True)
    bad = env.raises(lambda: SoftUpdate([a], [b], tau=tau), ValueError)
    env.check(sor(sand(bad, sor(tau < 0, tau > 1)), sand(not bad, tau >= 0, tau <= 1)), "a rate outside [0, 1] is refused, and only that")


def shape_case(env):
    n, m = env.pick("n", [1, 2, 3]), env.pick("m", [1, 2, 3])
    k, l = env.pick("k", [1, 2]), env.pick("l", [1, 2])
    t = [torch.zeros(n, requires_grad=True) for _ in range(k)]
    s = [torch.zeros(m, requires_grad=True) for _ in range(l)]
    bad = env.raises(lambda: SoftUpdate(t, s, tau=0.5), ValueError)
    env.check(bad == (n != m or k != l), "mismatched parameter lists are refused")


suite.case(bounds="any rate in [-2, 3]")(tau_case)
suite.case(bounds="1-2 parameters of length 1-3")(shape_case)


class ParamNet(nn.Module):
    """a network whose parameters are the symbols; a copy (the target made by a trainer) has symbols of its own"""

    def __init__(self, env, name):
        super().__init__()
        self.env, self.name_, self.copies = env, name, []
        self.w = nn.Parameter(env.real(name + ".w", 2))
        self.b = nn.Parameter(env.real(name + ".b"))

    def __deepcopy__(self, memo):
        c = ParamNet(self.env, f"{self.name_}'{len(self.copies)}")
        self.copies.append(c)
        return c


def trainer_case(env, kind, q2=True, value=False, cpe=False, alpha=False):
    from reagent.parameters import EvaluationParameters, RLParameters
    N = lambda n: ParamNet(env, n)
    tau = 0.25
    rl = RLParameters(target_update_rate=tau, maxq_learning=kind != "slateq")
    ev = EvaluationParameters(calc_cpe_in_training=cpe)
    nets = {}
    def net(n):
        nets[n] = N(n)
        return nets[n]
    cp = dict(reward_network=net("rew"), q_network_cpe=net("qc"), q_network_cpe_target=net("qct")) if cpe else dict(reward_network=None)
    if kind in ("dqn", "qrdqn", "c51", "parametric", "slateq"):
        import importlib
        mod = {"dqn": "dqn_trainer", "qrdqn": "qrdqn_trainer", "c51": "c51_trainer", "parametric": "parametric_dqn_trainer", "slateq": "slate_q_trainer"}[kind]
        cls = {"dqn": "DQNTrainer", "qrdqn": "QRDQNTrainer", "c51": "C51Trainer", "parametric": "ParametricDQNTrainer", "slateq": "SlateQTrainer"}[kind]
        C = getattr(importlib.import_module("reagent.training." + mod), cls)
        kw = dict(rl=rl)
        if kind in ("dqn", "qrdqn"):
            kw.update(cp, actions=["0", "1"], evaluation=ev)
        if kind == "c51":
            kw.update(actions=["0", "1"])
        if kind == "parametric":
            kw.update(reward_network=net("rew"))
        if kind == "slateq":
            from reagent.optimizer import Optimizer__Union
            kw.update(optimizer=Optimizer__Union.default())
        tr = C(net("q"), net("qt"), **kw)
        pairs = [("q", nets["qt"])]
    else:
        from reagent.training.sac_trainer import SACTrainer
        from reagent.training.td3_trainer import TD3Trainer
        from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
        from reagent.optimizer import Optimizer__Union
        kw = dict(rl=rl, q1_network=net("q1"), q2_network=net("q2") if q2 else None, actor_network=net("actor"))
        qs = ["q1"] + ["q2"] * q2
        if kind == "sac":
            tr = SACTrainer(value_network=net("v") if value else None, alpha_optimizer=Optimizer__Union.default() if alpha else None, **kw)
            pairs = [("v", nets["v"].copies[0])] if value else [(q, nets[q].copies[0]) for q in qs]
        elif kind == "td3":
            tr = TD3Trainer(**kw)
            pairs = [(q, nets[q].copies[0]) for q in qs + ["actor"]]
        else:
            tr = DiscreteCRRTrainer(actions=["0", "1"], evaluation=ev, **cp, **kw)
            pairs = [(q, nets[q].copies[0]) for q in qs + ["actor"]]
    if cpe:
        pairs.append(("qc", nets["qct"]))
    every = dict(nets)
    for n, net_ in nets.items():
        for c in net_.copies:
            every[c.name_] = c
    before = {n: [env.L(p) for p in m.parameters()] for n, m in every.items()}
    opts = tr.configure_optimizers()
    opts[-1].step()
    moved = {id(t): n for n, t in pairs}
    for n, m in every.items():
        src = before[moved[id(m)]] if id(m) in moved else None
        for k, p in enumerate(m.parameters()):
            old = before[n][k]
            if src is None:
                env.eq(p, old, f"{n}: only targets move")
            elif isinstance(old, list):
                env.eq(p, [tau * a + (1 - tau) * b for a, b in zip(src[k], old)], f"target {n} follows {moved[id(m)]}")
            else:
                env.eq(p, tau * src[k] + (1 - tau) * old, f"target {n} follows {moved[id(m)]}")
    # every trained network has exactly one gradient optimizer, and no target has any
    trained = [id(p) for o in opts[:-1] for g in o.param_groups for p in g["params"]]
    env.check(len(set(trained)) == len(trained), "no parameter is trained by two optimizers")
    for n, m in every.items():
        for p in m.parameters():
            env.check((id(p) in trained) == (id(m) not in moved), f"{n} is trained exactly when it is not a target")


for kw in [dict(kind="dqn"), dict(kind="dqn", cpe=True), dict(kind="qrdqn"), dict(kind="qrdqn", cpe=True), dict(kind="c51"), dict(kind="parametric"),
           dict(kind="slateq"), dict(kind="sac"), dict(kind="sac", q2=False), dict(kind="sac", value=True), dict(kind="sac", alpha=True), dict(kind="td3"),
           dict(kind="td3", q2=False), dict(kind="crr"), dict(kind="crr", q2=False), dict(kind="crr", cpe=True)]:
    suite.case(bounds="3 parameters per network, rate 1/4", **kw)(trainer_case)


def protocol_case(env):
    """training_step hands out the losses of one batch in order, then starts over"""
    from reagent.training.reagent_lightning_module import ReAgentLightningModule
    n = env.pick("yields", [1, 2, 3, 4])
    k = env.pick("optimizers", [1, 2, 3])
    losses = env.real("loss", 2, 4)
    seen = []

    class M(ReAgentLightningModule):
        def configure_optimizers(self):
            return [None] * k

        def train_step_gen(self, training_batch, batch_idx: int):
            seen.append((training_batch, batch_idx))
            for j in range(n):
                yield losses[training_batch, j]
    m = M()
    X = env.L(losses)
    def batch(i):
        for j in range(k):
            env.eq(m.training_step(i, i, j), X[i][j], f"loss {j} of batch {i}")
    if n == k:
        batch(0)
        batch(1)
        env.check(seen == [(0, 0), (1, 1)], "each batch is processed exactly once")
    elif n > k:
        env.check(env.raises(lambda: batch(0), RuntimeError), "too many losses are reported")
    else:
        env.check(env.raises(lambda: batch(0), StopIteration), "too few losses are reported")


suite.case(bounds="1-4 losses, 1-3 optimizers, 2 batches")(protocol_case)
