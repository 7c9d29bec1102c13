"""Configured agents: the networks, settings and policies a configuration stands for."""
import contextlib
import dataclasses
import inspect
import types
import numpy as np
import torch.nn as nn
import checks.spark as spark  # noqa (import order)
import reagent.training  # noqa (import order)
from reagent.models.cem_planner import CEMPlannerNetwork
from reagent.models.world_model import MemoryNetwork
from reagent.net_builder import (categorical_dqn_net_builder, continuous_actor_net_builder, discrete_actor_net_builder, discrete_dqn_net_builder, parametric_dqn_net_builder,
                                 quantile_dqn_net_builder)
from reagent.net_builder.categorical_dqn.categorical import Categorical
from reagent.net_builder.continuous_actor.gaussian_fully_connected import GaussianFullyConnected
from reagent.net_builder.discrete_actor.fully_connected import FullyConnected as DiscreteActor
from reagent.net_builder.discrete_dqn.fully_connected import FullyConnected as DiscreteDQNBuilder
from reagent.net_builder.parametric_dqn.fully_connected import FullyConnected as ParametricBuilder
from reagent.net_builder.quantile_dqn.quantile import Quantile
from reagent.net_builder.value.fully_connected import FullyConnected as ValueBuilder
from reagent.parameters import (CEMTrainerParameters, EvaluationParameters, MDNRNNTrainerParameters, NormalizationData, NormalizationKey, NormalizationParameters, RLParameters, Seq2RewardTrainerParameters)
from reagent.training import (C51Trainer, CEMTrainer, DiscreteCRRTrainer, DQNTrainer, ParametricDQNTrainer, QRDQNTrainer, SACTrainer, SlateQTrainer, TD3Trainer)
from reagent.training.parameters import (C51TrainerParameters, CRRTrainerParameters, DQNTrainerParameters, ParametricDQNTrainerParameters, QRDQNTrainerParameters, SACTrainerParameters,
                                         SlateQTrainerParameters, TD3TrainerParameters)
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer
from reagent.workflow.model_managers.actor_critic.sac import SAC
from reagent.workflow.model_managers.actor_critic.td3 import TD3
from reagent.workflow.model_managers.discrete import discrete_c51dqn, discrete_crr, discrete_dqn, discrete_qrdqn
from reagent.workflow.model_managers.model_based.cross_entropy_method import CrossEntropyMethod
from reagent.workflow.model_managers.model_based.seq2reward_model import Seq2RewardModel
from reagent.workflow.model_managers.model_based.world_model import WorldModel
from reagent.workflow.model_managers.parametric.parametric_dqn import ParametricDQN
from reagent.workflow.model_managers.ranking.slate_q import SlateQ
from reagent.workflow.types import RewardOptions
from checks.common import *
from checks.D35 import eager, Model, norm, raw, cooked, answer, width, action_norm, out_of

suite = Suite("D43", ["networks are arbitrary bounded functions; TorchScript compilation preserves the meaning of the modules it is given",
                      "settings are numbers in (0, 1); raw features lie in [-20, 20]"])


class Builder:
    """builds arbitrary networks, remembering what for; serves like the real one"""

    def __init__(self, env, real, label, made, out, post=None, proto=None):
        self.env, self.real, self.label, self.made, self.out, self.post, self.proto = env, real(), label, made, out, post, proto

    def make(self, method, a, k):
        got = inspect.signature(getattr(type(self.real), method)).bind(None, *a, **k)
        got.apply_defaults()
        m = Model(self.env, f"{self.label}{len(self.made)}", self.out(got.arguments), self.proto, self.post, (-1, 1))
        m.asked = dict(got.arguments)
        self.made.append(m)
        return m

    def __getattr__(self, n):
        if n in ("build_q_network", "build_actor", "build_value_network"):
            return lambda *a, **k: self.make(n, a, k)
        return getattr(self.real, n)


PROTO = rlt.FeatureData(torch.zeros(1, 3))
data = lambda p: NormalizationData(dense_normalization_parameters=p)
actor_out = lambda r: rlt.ActorOutput(action=r[:, :1], squashed_mean=r[:, 1:])
KINDS = {
    "dqn": (discrete_dqn.DiscreteDQN, DQNTrainerParameters, DQNTrainer), "qr": (discrete_qrdqn.DiscreteQRDQN, QRDQNTrainerParameters, QRDQNTrainer),
    "c51": (discrete_c51dqn.DiscreteC51DQN, C51TrainerParameters, C51Trainer), "crr": (discrete_crr.DiscreteCRR, CRRTrainerParameters, DiscreteCRRTrainer),
    "parametric": (ParametricDQN, ParametricDQNTrainerParameters, ParametricDQNTrainer), "sac": (SAC, SACTrainerParameters, SACTrainer),
    "td3": (TD3, TD3TrainerParameters, TD3Trainer), "slate": (SlateQ, SlateQTrainerParameters, SlateQTrainer)}
DISCRETE = ("dqn", "qr", "c51", "crr")
MODS = (discrete_dqn_net_builder, quantile_dqn_net_builder, categorical_dqn_net_builder, discrete_actor_net_builder, parametric_dqn_net_builder, continuous_actor_net_builder)


def put(o, n, v):
    object.__setattr__(o, n, v)
    return v


def settle(env, p, prefix="", only=None):
    """gives every fractional setting an arbitrary value"""
    for f in dataclasses.fields(p):
        v = getattr(p, f.name)
        if type(v) is float and (only is None or f.name in only):
            put(p, f.name, env.num(prefix + f.name, 0.01, 0.99))


def make(env, kind, **kw):
    """a manager with arbitrary networks and settings; and what was built"""
    cls, par, _ = KINDS[kind]
    opts = {}
    if kind in DISCRETE:
        opts = dict(actions=["x", "y", "z"], minibatch_size=8)
    if kind in ("dqn", "crr") and "twin" in kw:
        opts["double_q_learning"] = kw["twin"]
    p = par(**opts, rl=RLParameters(softmax_policy=bool(kw.get("soft")), temperature=0.5))
    settle(env, p.rl, "rl.", ("gamma", "target_update_rate", "epsilon"))
    if kind not in ("sac", "c51"):
        settle(env, p)
    extra = {}
    if kind in DISCRETE and kind != "c51" and "cpe" in kw:
        extra["eval_parameters"] = EvaluationParameters(calc_cpe_in_training=kw["cpe"])
    if kind == "slate":
        extra.update(slate_feature_id=1, slate_score_id=(2, 3), slate_size=2, num_candidates=3)
    m = cls(trainer_param=p, **extra)
    if m.trainer_param is not p:
        p = m.trainer_param
    made = {"q": [], "cpe": [], "actor": [], "value": []}
    A = 3
    B = lambda real, label, out, post=None, proto=None: types.SimpleNamespace(value=Builder(env, real, label, made[label], out, post, proto))
    if kind in DISCRETE:
        real, out = {"dqn": (DiscreteDQNBuilder, lambda a: a["output_dim"]), "crr": (DiscreteDQNBuilder, lambda a: a["output_dim"]),
                     "qr": (Quantile, lambda a: (a["output_dim"], 2)), "c51": (Categorical, lambda a: a["output_dim"])}[kind]
        put(m, "critic_net_builder" if kind == "crr" else "net_builder", B(real, "q", out, None, PROTO))
        put(m, "cpe_net_builder", B(DiscreteDQNBuilder, "cpe", lambda a: a["output_dim"]))
        if kind == "crr":
            put(m, "actor_net_builder", B(DiscreteActor, "actor", lambda a: a["num_actions"], lambda r: rlt.ActorOutput(action=r, log_prob=r), PROTO))
    elif kind in ("parametric", "slate"):
        put(m, "net_builder", B(ParametricBuilder, "q", lambda a: a["output_dim"]))
    else:
        put(m, "actor_net_builder", B(GaussianFullyConnected, "actor", lambda a: 2, actor_out, PROTO))
        put(m, "critic_net_builder", B(ParametricBuilder, "q", lambda a: a["output_dim"]))
        put(m, "use_2_q_functions", kw.get("twin", True))
        if kind == "sac":
            put(m, "value_net_builder", B(ValueBuilder, "value", lambda a: a["output_dim"]) if kw.get("value", True) else None)
            put(m, "serve_mean_policy", kw.get("mean", True))
    PA = data(norm(2)) if kind == "parametric" else data(action_norm(-3.0, 5.0))
    norms = {NormalizationKey.STATE: data(norm(4, 9)), NormalizationKey.ACTION: PA, NormalizationKey.ITEM: data(norm(3))}
    return m, p, made, norms


@contextlib.contextmanager
def spying(env, *classes):
    """what each class was made with; it is made all the same"""
    log = {c: [] for c in classes}
    with contextlib.ExitStack() as st:
        for c in classes:
            def init(self, *a, real=c.__init__, log=log[c], **k):
                got = inspect.signature(real).bind(self, *a, **k).arguments
                log.append({n: v for n, v in got.items() if n != "self"})
                real(self, *a, **k)
            st.enter_context(env.patch(c, "__init__", init))
        yield log


def pairs(env, a, b, label):
    if all(isinstance(v, (S, int, float, np.floating)) and not isinstance(v, bool) for v in (a, b)):
        env.eq(a, b, label)
    else:
        env.check(a is b or a == b, label)


def copy_of(env, t, q, label):
    env.check(t is not q and any(t is c for c in q.copies), label)


def built_case(env, kind):
    """every setting reaches the trainer; networks have the sizes asked for, are different from one another, and targets start as copies"""
    twin, cpe = bool(env.flag("twin")), bool(env.flag("cpe"))
    kw = dict(twin=twin, cpe=cpe, value=bool(env.flag("value")) if kind == "sac" else True)
    metrics = {"b": 2.0, "a": 1.0} if env.flag("metrics") else None
    m, p, made, norms = make(env, kind, **kw)
    ro = RewardOptions(metric_reward_values=metrics)
    T = KINDS[kind][2]
    with spying(env, T) as log:
        t = m.initialize_trainer(False, ro, norms)
    env.check(m.trainer is t and isinstance(t, T), "kind of trainer")
    (args,) = log[T]
    for f in dataclasses.fields(p):
        pairs(env, args[f.name], getattr(p, f.name), "settings")
    nets = [n for ns in made.values() for n in ns]
    state = norms[NormalizationKey.STATE]
    env.check(all(n.asked["state_normalization_data"] is state for n in nets), "networks read the state")
    given = [v for k, v in args.items() if isinstance(v, Model)]
    env.check(len({id(v) for v in given}) == len(given), "networks are different")
    k = 3 * (len(metrics or {}) + 1)
    if kind in DISCRETE:
        q = args["q1_network"] if kind == "crr" else args["q_network"]
        env.check(q in made["q"] and q.asked["output_dim"] == 3, "a value per action")
        if kind in ("qr", "c51"):
            env.check(q.asked["num_atoms"] == p.num_atoms, "atoms")
        if kind == "c51":
            env.check(q.asked["qmin"] == p.qmin and q.asked["qmax"] == p.qmax, "range")
        if kind != "crr":
            copy_of(env, args["q_network_target"], q, "target")
        else:
            env.check(args["actor_network"] in made["actor"] and args["actor_network"].asked["num_actions"] == 3, "actor")
            q2 = args.get("q2_network")
            env.check((q2 is None) if not twin else (q2 in made["q"] and q2.asked["output_dim"] == 3), "second critic")
        if kind != "c51":
            r, c, ct = args.get("reward_network"), args.get("q_network_cpe"), args.get("q_network_cpe_target")
            env.check(args["evaluation"].calc_cpe_in_training == cpe, "evaluation")
            env.check(list(args["metrics_to_score"] or []) == sorted(metrics or {}), "metrics")
            if cpe:
                env.check(r in made["cpe"] and c in made["cpe"] and r.asked["output_dim"] == k and c.asked["output_dim"] == k, "a value per action and metric")
                copy_of(env, ct, c, "target of the evaluation")
            else:
                env.check(r is None and c is None and ct is None, "no networks for evaluation")
    elif kind in ("parametric", "slate"):
        q = args["q_network"]
        item = norms[NormalizationKey.ACTION if kind == "parametric" else NormalizationKey.ITEM]
        env.check(q in made["q"] and all(n.asked["action_normalization_data"] is item for n in nets) and q.asked["output_dim"] == 1, "one value")
        copy_of(env, args["q_network_target"], q, "target")
        if kind == "parametric":
            r = args["reward_network"]
            env.check(r in made["q"] and r.asked["output_dim"] == len(metrics or {}) + 1, "reward and metrics")
    else:
        env.check(all(n.asked["action_normalization_data"] is norms[NormalizationKey.ACTION] for n in made["q"] + made["actor"]), "networks read the action")
        env.check(args["actor_network"] in made["actor"] and args["q1_network"] in made["q"] and args["q1_network"].asked["output_dim"] == 1, "actor and critic")
        q2 = args.get("q2_network")
        env.check((q2 is None) if not twin else q2 in made["q"], "second critic")
        if kind == "sac":
            v = args.get("value_network")
            env.check((v in made["value"] and v.asked["output_dim"] == 1) if kw["value"] else v is None, "value network")
    env.check(all(n.training and not n.seen for n in given), "networks are ready for training")


for kind in KINDS:
    suite.case(bounds="any settings, with and without second critics, evaluation and metrics", kind=kind)(built_case)


def retrain(env, net):
    net.name_ = "trained-" + net.name_
    net.net = env.net(net.name_, net.out, bound=(-1, 1))


def served_case(env, kind):
    """what is served after training is the trained network, on preprocessed features; and the policy for it acts by it"""
    mean = bool(env.flag("mean")) if kind == "sac" else True
    m, p, made, norms = make(env, kind, mean=mean)
    P = norms[NormalizationKey.STATE].dense_normalization_parameters
    env.refuses(lambda: (m.build_serving_modules() if kind == "crr" else m.build_serving_module()), AssertionError, AttributeError)
    t = m.initialize_trainer(False, RewardOptions(), norms)
    for n in {id(v): v for v in [getattr(t, k, None) for k in ("q_network", "q1_network", "actor_network")] if isinstance(v, Model)}.values():
        retrain(env, n)
    B = 1
    with eager(env) as e, contextlib.ExitStack() as st:
        for mod in MODS:
            for k in dir(mod):
                if hasattr(e.pw, k) and (k.endswith("Wrapper") or k.endswith("WithPreprocessor")):
                    st.enter_context(env.patch(mod, k, getattr(e.pw, k)))
        served = m.build_serving_modules()
        env.check(set(served) == set(m.serving_module_names()), "names of what is served")
        v, h = raw(env, "s", P, B)
        row = cooked(env, P, env.L(v)[0], env.L(h)[0])
        for name, mod in served.items():
            if kind in ("dqn", "c51", "qr") or name in ("dqn", "actor_dqn"):
                names, got = mod(rlt.ServingFeatureData((v, h), {}, {}))
                env.check(names == ["x", "y", "z"], "action names")
                label = "actor" if name == "actor_dqn" else "q"
                r = answer(env, f"trained-{label}0", row, 6 if kind == "qr" else 3, -1, 1)
                env.eq(got[0], [(r[2 * i] + r[2 * i + 1]) / 2 for i in range(3)] if kind == "qr" else r, "values of the trained network", 1e-4)
            elif kind == "crr":
                env.eq(mod((v, h))[0], answer(env, "trained-actor0", row, 3, -1, 1), "the trained actor")
            elif kind in ("parametric", "slate"):
                PI = norms[NormalizationKey.ACTION if kind == "parametric" else NormalizationKey.ITEM].dense_normalization_parameters
                a, ah = raw(env, "a", PI, B)
                names, got = mod((v, h), (a, ah))
                env.eq(got[0], answer(env, "trained-q0", row + cooked(env, PI, env.L(a)[0], env.L(ah)[0]), 1, -1, 1), "value of the trained network")
            else:
                r = answer(env, "trained-actor0", row, 2, -1, 1)
                env.close([mod((v, h))[0][0].item()], [out_of(env, r[1 if kind == "sac" and mean else 0], -3, 5)], "the trained actor", 1e-3)
    env.check(all(n.training and not n.seen for ns in made.values() for n in ns), "networks go on training untouched")


for kind in KINDS:
    suite.case(bounds="1 state", kind=kind)(served_case)


def policy_case(env, kind, serving):
    """the policy of an agent acts by its networks as they are now"""
    soft = bool(env.flag("soft")) if kind in ("dqn", "qr", "c51") and serving else False
    m, p, made, norms = make(env, kind, soft=soft)
    P = norms[NormalizationKey.STATE].dense_normalization_parameters
    t = m.initialize_trainer(False, RewardOptions(), norms)
    with eager(env) as e, contextlib.ExitStack() as st:
        for mod in MODS:
            for k in dir(mod):
                if hasattr(e.pw, k) and (k.endswith("Wrapper") or k.endswith("WithPreprocessor")):
                    st.enter_context(env.patch(mod, k, getattr(e.pw, k)))
        st.enter_context(env.patch(nn.Module, "original_name", property(lambda s: type(s).__name__)))
        if not serving:
            pol = m.create_policy(serving=False)
        for n in {id(v): v for v in [getattr(t, k, None) for k in ("q_network", "q1_network", "actor_network")] if isinstance(v, Model)}.values():
            retrain(env, n)
        if serving:
            pol = m.create_policy(serving=True)
            v, h = raw(env, "s", P, 1)
            row = cooked(env, P, env.L(v)[0], env.L(h)[0])
            obs = (v, h)
        else:
            x = env.real("x", 1, 4)
            row = env.L(x)[0]
            obs = rlt.FeatureData(x)
        if kind in ("dqn", "qr", "c51"):
            mask = np.array(env.pick("mask", [[True, True, True], [False, True, True], [True, False, True]]))
            got = pol.act(obs, mask)
            r = answer(env, "trained-q0", row, 6 if kind == "qr" else 3, -1, 1)
            q = [(r[2 * i] + r[2 * i + 1]) / 2 for i in range(3)] if kind == "qr" else r
            if soft:
                w = env.params("multinomial")[0][0]
                ex = [sexp(a / 0.5) if k else 0 for a, k in zip(q, mask)]
                env.close([x * ssum(ex) for x in w], [x * ssum(w) for x in ex], "drawn by the scaled values", 1e-3)
            else:
                if kind == "qr":
                    for i in range(3):
                        for j in range(i):
                            env.assume(sabs(q[i] - q[j]) >= 0.001)
                best = argmax_first(q, [int(k) for k in mask])
                env.eq(got.action[0], [ite(best == i, 1, 0) for i in range(3)], "the best action")
        elif kind == "crr":
            got = pol.act(obs)
            env.eq(got.action[0], answer(env, "trained-actor0", row, 3, -1, 1), "the actor's action")
        elif kind in ("sac", "td3"):
            r = answer(env, "trained-actor0", row, 2, -1, 1)
            got = pol.act(obs)
            if serving:
                env.close([got.action[0][0].item()], [out_of(env, r[1 if kind == "sac" else 0], -3, 5)], "the actor's action", 1e-3)
            else:
                env.eq(got.action[0], r[:1], "the actor's action")
        net = made["actor"][0] if kind in ("crr", "sac", "td3") else made["q"][0]
        env.check(net.training, "the network goes on training")
        if not serving:
            env.check(not any(net.modes) and len(net.modes) == 1, "asked once, in evaluation mode")


for kind in ("dqn", "qr", "c51", "crr", "sac", "td3"):
    suite.case(bounds="1 state, 3 actions", kind=kind, serving=False)(policy_case)
    suite.case(bounds="1 state, 3 actions", kind=kind, serving=True)(policy_case)


def planning_case(env, discrete):
    """a planner gets as many different world models as configured, each with its own trainer, and the bounds of each action at the place the action takes"""
    w = MDNRNNTrainerParameters(hidden_size=3, num_hidden_layers=1, num_gaussians=2, action_dim=2, not_terminal_loss_weight=1.0)
    ends = env.num("not_terminal_loss_weight", 0, 1)
    env.assume(sor(ends == 0, ends >= 0.01))
    put(w, "not_terminal_loss_weight", ends)
    p = CEMTrainerParameters(plan_horizon_length=3, num_world_models=2, cem_population_size=5, cem_num_iterations=4, ensemble_population_size=6, num_elites=2, mdnrnn=w, rl=RLParameters())
    settle(env, p.rl, "rl.", ("gamma",))
    settle(env, p, "cem.", ("alpha", "epsilon"))
    m = CrossEntropyMethod(trainer_param=p)
    p = m.trainer_param
    ids = env.pick("order", [[1, 2], [2, 1]])
    kind = "DO_NOT_PREPROCESS" if discrete else "CONTINUOUS_ACTION"
    PA = {i: NormalizationParameters(feature_type=kind, min_value=-1.0 * i, max_value=3.0 * i) for i in ids}
    if not discrete:
        lo, hi = {i: env.num(f"lo{i}", -5, 0) for i in ids}, {i: env.num(f"hi{i}", 1, 5) for i in ids}
        for i in ids:
            put(PA[i], "min_value", lo[i])
            put(PA[i], "max_value", hi[i])
    norms = {NormalizationKey.STATE: data(norm(4, 9)), NormalizationKey.ACTION: data(PA)}
    with spying(env, MemoryNetwork, MDNRNNTrainer, CEMPlannerNetwork, CEMTrainer) as log:
        t = m.initialize_trainer(False, RewardOptions(), norms)
    (c,), (k,) = log[CEMTrainer], log[CEMPlannerNetwork]
    trainers = c["world_model_trainers"]
    env.check(c["parameters"] is p and t is m.trainer, "settings")
    env.check(len(trainers) == 2 and all(isinstance(x, MDNRNNTrainer) for x in trainers), "a trainer per world model")
    nets = list(k["mem_net_list"])
    env.check(len(nets) == 2 and nets[0] is not nets[1] and all(a.memory_network is n for a, n in zip(trainers, nets)), "the trained world models plan")
    weights = [{x.data_ptr() for x in n.parameters()} for n in nets]
    env.check(not (weights[0] & weights[1]), "world models share nothing")
    for a in log[MemoryNetwork]:
        env.check((a["state_dim"], a["action_dim"], a["num_hiddens"], a["num_hidden_layers"], a["num_gaussians"]) == (3, 2, 3, 1, 2), "sizes of world models")
    env.check(all(a["params"] is w or a["params"] == w for a in log[MDNRNNTrainer]), "settings of world models")
    for n in ("cem_num_iterations", "cem_population_size", "ensemble_population_size", "num_elites", "plan_horizon_length", "alpha", "epsilon"):
        pairs(env, k[n], getattr(p, n), "settings of the planner")
    pairs(env, k["gamma"], p.rl.gamma, "discount")
    env.check((k["state_dim"], k["action_dim"], bool(k["discrete_action"])) == (3, 2, discrete), "sizes")
    env.check(bool(k["terminal_effective"]) == bool(ends > 0), "ends are planned for if they are learned")
    lower, upper = k.get("action_lower_bounds"), k.get("action_upper_bounds")
    if discrete:
        env.check(lower is None and upper is None, "no bounds")
    else:
        env.eq(list(lower), [lo[1], lo[2]], "lower bounds")
        env.eq(list(upper), [hi[1], hi[2]], "upper bounds")
    env.check(m.create_policy(serving=False).cem_planner_network is t.cem_planner_network, "the policy plans with them")


for d in (False, True):
    suite.case(bounds="2 world models, 2 actions in either order", discrete=d)(planning_case)


def sequence_case(env, kind):
    """world models and reward models are trained with the settings and sizes of their configuration"""
    norms = {NormalizationKey.STATE: data(norm(4, 9)), NormalizationKey.ACTION: data(action_norm(-3.0, 5.0))}
    if kind == "world":
        w = MDNRNNTrainerParameters(hidden_size=3, num_hidden_layers=1, num_gaussians=2, action_dim=2)
        settle(env, w)
        m = WorldModel(trainer_param=w)
        w = m.trainer_param
        with spying(env, MemoryNetwork, MDNRNNTrainer) as log:
            t = m.initialize_trainer(False, RewardOptions(), norms)
        (a,), (k,) = log[MemoryNetwork], log[MDNRNNTrainer]
        env.check((a["state_dim"], a["action_dim"], a["num_hiddens"], a["num_hidden_layers"], a["num_gaussians"]) == (3, 2, 3, 1, 2), "sizes")
        env.check(k["params"] is w and k["memory_network"] is t.memory_network, "settings")
    else:
        w = Seq2RewardTrainerParameters(action_names=["x", "y"], multi_steps=2)
        settle(env, w)
        m = Seq2RewardModel(trainer_param=w)
        w = m.trainer_param
        with spying(env, Seq2RewardTrainer) as log:
            t = m.initialize_trainer(False, RewardOptions(), norms)
        (k,) = log[Seq2RewardTrainer]
        env.check(k["params"] is w and k["seq2reward_network"] is t.seq2reward_network and t.seq2reward_network.state_dim == 3, "settings")
    env.refuses(m.build_serving_module, NotImplementedError)
    env.check(list(m.required_normalization_keys) == [NormalizationKey.STATE, NormalizationKey.ACTION], "what it needs")


for kind in ("world", "reward"):
    suite.case(bounds="any settings", kind=kind)(sequence_case)


def refuse_case(env):
    """agents without a choice are refused"""
    for kind in DISCRETE:
        cls, par, _ = KINDS[kind]
        env.refuses(lambda: cls(trainer_param=par(actions=["x"], minibatch_size=8)), AssertionError, ValueError)
    for n, c in ((0, 3), (2, 0), (-1, -1)):
        env.refuses(lambda: SlateQ(slate_feature_id=1, slate_score_id=(2, 3), slate_size=n, num_candidates=c), AssertionError, ValueError)
    env.flag("any")


suite.case(bounds="7 configurations")(refuse_case)


def list_policy_case(env, serving):
    """the best of the listed actions, or the best slate of the candidates"""
    kind = env.pick("kind", ["parametric", "slate"])
    m, p, made, norms = make(env, kind)
    if kind == "parametric":
        norms[NormalizationKey.ACTION] = data({i: NormalizationParameters(feature_type="DO_NOT_PREPROCESS") for i in (1, 2, 3)})
    else:
        norms[NormalizationKey.ITEM] = data({3: NormalizationParameters(feature_type="DO_NOT_PREPROCESS")})
    P = norms[NormalizationKey.STATE].dense_normalization_parameters
    t = m.initialize_trainer(False, RewardOptions(), norms)
    with eager(env) as e, contextlib.ExitStack() as st:
        for mod in MODS:
            for k in dir(mod):
                if hasattr(e.pw, k) and (k.endswith("Wrapper") or k.endswith("WithPreprocessor")):
                    st.enter_context(env.patch(mod, k, getattr(e.pw, k)))
        st.enter_context(env.patch(nn.Module, "original_name", property(lambda s: type(s).__name__)))
        if not serving:
            pol = m.create_policy(serving=False)
        retrain(env, t.q_network)
        if serving:
            pol = m.create_policy(serving=True)
        docs, val = env.real("docs", 1, 3, 1, lo=-4, hi=4), env.real("value", 1, 3, lo=0, hi=1)
        x = env.real("x", 1, 4)
        if serving:
            v, h = raw(env, "s", P, 1)
            row = cooked(env, P, env.L(v)[0], env.L(h)[0])
        else:
            row = env.L(x)[0]
        rows = [row + ([1 if i == j else 0 for j in range(3)] if kind == "parametric" else env.L(docs)[0][i]) for i in range(3)]
        q = [answer(env, "trained-q0", r, 1, -1, 1)[0] for r in rows]
        if kind == "slate":
            obs = rlt.FeatureData(x if not serving else v, candidate_docs=rlt.DocList(docs, torch.ones(1, 3, dtype=torch.bool), val))
            if serving:
                return
            a = [int(i) for i in env.L(pol.act(obs).action)[0]]
            w = [b * sexp(c) for b, c in zip(q, env.L(val)[0])]
            env.check(len(a) == 2 and len(set(a)) == 2, "a slate of two")
        else:
            out = pol.act((v, h) if serving else rlt.FeatureData(x))
            if serving:
                best = argmax_first(q)
                env.eq(out.action[0], [ite(best == i, 1, 0) for i in range(3)], "the best action")
            else:
                w = env.params("multinomial")[0][0]
                ex = [sexp(b / p.rl.temperature) for b in q]
                env.close([c * ssum(ex) for c in w], [c * ssum(w) for c in ex], "drawn by the scaled values", 1e-3)


for serving in (False, True):
    suite.case(bounds="1 state, 3 actions or candidates", serving=serving)(list_policy_case)
