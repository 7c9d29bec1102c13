"""From stored transitions and trajectories to training batches: the gym preprocessors hand on every field of its own sample."""
import types
import gym
import numpy as np
from gym import spaces
from reagent.gym.envs.env_wrapper import EnvWrapper
from reagent.gym.preprocessors import trainer_preprocessor as tp
from reagent.gym.preprocessors.default_preprocessors import RecsimObsPreprocessor
from reagent.gym.preprocessors.replay_buffer_inserters import BasicReplayBufferInserter, RecSimReplayBufferInserter
from reagent.gym.types import Trajectory, Transition
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE
from checks.common import *
from checks.replay import symbolic_storage

suite = Suite("D33", ["log-probabilities lie in [-3, 0], other numbers in [-4, 4]", "contents of next states and next masks after a terminal step are unspecified"])

LOW, HIGH = [float(torch.tensor(v)) for v in CONTINUOUS_TRAINING_ACTION_RANGE]


def stored(**kw):
    """a sampled batch, which has exactly the given fields"""
    return types.SimpleNamespace(**kw)


def common(env, B, S=2, **kw):
    """the fields every buffer returns, and the terminal flags as booleans"""
    term = [bool(env.flag(f"t{b}")) for b in range(B)]
    d = dict(state=env.real("st", B, S, lo=-4, hi=4), next_state=env.real("ns", B, S, lo=-4, hi=4), reward=env.real("r", B, 1, lo=-4, hi=4),
             terminal=torch.tensor(term).reshape(B, 1), log_prob=env.real("lp", B, 1, lo=-3, hi=0))
    d.update(kw)
    return stored(**d), term


def space_env(action=None, obs=None, **kw):
    return types.SimpleNamespace(action_space=action, observation_space=obs, **kw)


def check_common(env, out, x, term):
    env.eq(out.reward, env.L(x.reward), "rewards")
    env.eq(out.not_terminal, [[0.0 if t else 1.0] for t in term], "not terminal")
    env.eq(out.extras.action_probability, [[sexp(v[0])] for v in env.L(x.log_prob)], "probability of the logged action")
    env.check(out.step is None and out.time_diff is None, "no step counts")


def hot(i, n):
    return [ite(i == k, 1.0, 0.0) for k in range(n)]


def check_discrete_actions(env, got, nxt, acts, nacts, term, n):
    env.eq(got, [hot(a[0], n) for a in acts], "logged actions")
    for b, t in enumerate(term):
        env.eq(nxt[b], [0.0] * n if t else hot(nacts[b][0], n), "next actions, none after the end")


def discrete_case(env, B, n, masks, pre):
    """every field of a discrete batch is its sample's; absent masks allow everything"""
    acts, nacts = env.ints("a", B, 1, lo=0, hi=n - 1), env.ints("na", B, 1, lo=0, hi=n - 1)
    kw = {}
    if masks:
        kw = dict(possible_actions_mask=env.bools("pm", B, n), next_possible_actions_mask=env.bools("npm", B, n))
    x, term = common(env, B, action=acts, next_action=nacts, **kw)
    e = space_env(spaces.Discrete(n))
    seen = []
    if pre:
        def trainer_preprocessor(s):
            seen.append(s)
            return rlt.FeatureData(s * 2 + len(seen))
        e.trainer_preprocessor = trainer_preprocessor
    trainer = types.SimpleNamespace(train=dqn_train)
    out = tp.make_replay_buffer_trainer_preprocessor(trainer, torch.device("cpu"), e)(x)
    env.check(isinstance(out, rlt.DiscreteDqnInput), "batch type follows the trainer")
    check_common(env, out, x, term)
    check_discrete_actions(env, out.action, out.next_action, env.L(acts), env.L(nacts), term, n)
    f = (lambda s, k: [[2 * v + k for v in r] for r in env.L(s)]) if pre else (lambda s, k: env.L(s))
    env.eq(out.state.float_features, f(x.state, 1), "states")
    env.eq(out.next_state.float_features, f(x.next_state, 2), "next states")
    one = [[1.0] * n] * B
    as01 = lambda m: [[ite(v, 1.0, 0.0) for v in r] for r in env.L(m)]
    env.eq(out.possible_actions_mask, as01(x.possible_actions_mask) if masks else one, "possible actions")
    env.eq(out.possible_next_actions_mask, as01(x.next_possible_actions_mask) if masks else one, "possible next actions")


def dqn_train(training_batch: rlt.DiscreteDqnInput):
    pass


def parametric_train(training_batch: rlt.ParametricDqnInput):
    pass


def actor_train(training_batch: rlt.PolicyNetworkInput):
    pass


def memory_train(training_batch: rlt.MemoryNetworkInput):
    pass


def slate_train(training_batch: rlt.SlateQInput):
    pass


def pg_train(training_batch: rlt.PolicyGradientInput):
    pass


def untyped_train(training_batch):
    pass


for kw in (dict(B=2, n=3, masks=True, pre=False), dict(B=3, n=2, masks=False, pre=False), dict(B=1, n=2, masks=True, pre=True)):
    suite.case(bounds="up to 3 samples and 3 actions", **kw)(discrete_case)
suite.case(tier="thorough", bounds="4 samples, 4 actions", B=4, n=4, masks=True, pre=False)(discrete_case)


def parametric_case(env, B, n):
    """candidates of every sample are all one-hot actions"""
    acts, nacts = env.ints("a", B, 1, lo=0, hi=n - 1), env.ints("na", B, 1, lo=0, hi=n - 1)
    x, term = common(env, B, action=acts, next_action=nacts)
    out = tp.make_replay_buffer_trainer_preprocessor(types.SimpleNamespace(train=parametric_train), torch.device("cpu"), space_env(spaces.Discrete(n)))(x)
    check_common(env, out, x, term)
    check_discrete_actions(env, out.action.float_features, out.next_action.float_features, env.L(acts), env.L(nacts), term, n)
    env.eq(out.state.float_features, env.L(x.state), "states")
    env.eq(out.next_state.float_features, env.L(x.next_state), "next states")
    eye = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)] * B
    for t in (out.possible_actions, out.possible_next_actions):
        env.eq(t.float_features, eye, "all actions of every sample")
    for t in (out.possible_actions_mask, out.possible_next_actions_mask):
        env.eq(t, [[1.0] * n] * B, "all allowed")


for kw in (dict(B=2, n=3), dict(B=1, n=2)):
    suite.case(bounds="up to 2 samples and 3 actions", **kw)(parametric_case)


def continuous_case(env, B, lo, hi, docs):
    """actions are carried linearly from the environment's range onto the training range, also through the environment wrapper and back"""
    A = len(lo)
    acts, nacts = [torch.stack([env.real(f"{t}{k}", B, lo=l, hi=h) for k, (l, h) in enumerate(zip(lo, hi))], dim=1) for t in ("a", "na")]
    kw = {}
    if docs:
        kw = dict(doc=env.real("doc", B, docs, 1), next_doc=env.real("ndoc", B, docs, 1))
    x, term = common(env, B, action=acts, next_action=nacts, **kw)
    e = space_env(spaces.Box(low=np.array(lo, dtype=np.float32), high=np.array(hi, dtype=np.float32), dtype=np.float32))
    with env.patch(rlt, "_embed_states", embedded_by(env, rows := [])):
        out = tp.make_replay_buffer_trainer_preprocessor(types.SimpleNamespace(train=actor_train), torch.device("cpu"), e)(x)
    check_common(env, out, x, term)
    scale = lambda v, k: LOW + (HIGH - LOW) * (v - lo[k]) / (hi[k] - lo[k])
    flat = lambda t: [v for r in t for v in r]
    env.close(flat(env.L(out.action.float_features)), flat([[scale(v, k) for k, v in enumerate(r)] for r in env.L(acts)]), "actions in the training range", 1e-5)
    want = [[0.0] * A if term[b] else [scale(v, k) for k, v in enumerate(r)] for b, r in enumerate(env.L(nacts))]
    env.close(flat(env.L(out.next_action.float_features)), flat(want), "next actions in the training range", 1e-5)
    if docs:
        env.check(len(rows) == 2, "both states are embedded")
        for s, st, dc in ((rows[0], x.state, x.doc), (rows[1], x.next_state, x.next_doc)):
            env.eq(s.float_features, env.L(st), "state handed to the embedding")
            env.eq(s.candidate_docs.float_features, env.L(dc), "documents handed to the embedding")
        env.eq(out.state.float_features, [[1.0]] * B, "embedded state")
        env.eq(out.next_state.float_features, [[2.0]] * B, "embedded next state")
    else:
        env.eq(out.state.float_features, env.L(x.state), "states")
        env.eq(out.next_state.float_features, env.L(x.next_state), "next states")
        env.check(out.state.candidate_docs is None and out.next_state.candidate_docs is None, "no documents")
    # what an actor puts out reaches the environment in its own range, and comes back as it was put out
    act = env.real("out", 1, A, lo=LOW, hi=HIGH)
    sent = EnvWrapper.action_extractor(e, rlt.ActorOutput(action=act))
    unscale = lambda v, k: lo[k] + (hi[k] - lo[k]) * (v - LOW) / (HIGH - LOW)
    env.close(env.L(sent), [unscale(v, k) for k, v in enumerate(env.L(act)[0])], "action sent to the environment", 1e-5)
    env.eq(EnvWrapper.serving_action_extractor(e, rlt.ActorOutput(action=act)), env.L(act)[0], "served action is already in the environment's range")


def embedded_by(env, rows):
    def f(s):
        rows.append(s)
        return rlt.FeatureData(torch.full((s.float_features.shape[0], 1), float(len(rows))))
    return f


suite.case(bounds="2 samples, ranges [-2,2] and [0,3]", B=2, lo=[-2.0, 0.0], hi=[2.0, 3.0], docs=0)(continuous_case)
suite.case(bounds="2 samples, range [1,1.5], 2 documents", B=2, lo=[1.0], hi=[1.5], docs=2)(continuous_case)
suite.case(bounds="1 sample, range [-1,1]", B=1, lo=[-1.0, -1.0, -1.0], hi=[1.0, 1.0, 1.0], docs=0)(continuous_case)


def extract_case(env, n):
    """a discrete environment gets the index of the largest entry; a slate environment the slate itself"""
    sc = env.real("s", 1, n)
    v = env.L(sc)[0]
    for i in range(n):
        for j in range(i):
            env.assume(sabs(v[i] - v[j]) >= 0.0625)
    e = space_env(spaces.Discrete(n))
    best = argmax_first(v)
    for f in (EnvWrapper.action_extractor, EnvWrapper.serving_action_extractor):
        got = f(e, rlt.ActorOutput(action=sc))
        env.check(tuple(got.shape) == (), "one action")
        env.check(env.L(got) == best, "largest entry")
    sl = env.ints("sl", 1, 2, lo=0, hi=n - 1)
    e = space_env(spaces.MultiDiscrete([n, n]))
    for f in (EnvWrapper.action_extractor, EnvWrapper.serving_action_extractor):
        env.eq(f(e, rlt.ActorOutput(action=sl)), env.L(sl)[0], "the slate")
        env.check(env.raises(lambda: f(e, rlt.ActorOutput(action=torch.zeros(2, n)))), "several actions are refused")


suite.case(bounds="3 actions", n=3)(extract_case)


def slate_case(env, B, K, C, clicks):
    """rewards and clicks of each slot; an extra slot for choosing nothing carries no reward and counts exactly when nothing was clicked"""
    acts, nacts = env.ints("a", B, K, lo=0, hi=C - 1), env.ints("na", B, K, lo=0, hi=C - 1)
    click = torch.tensor(clicks)
    x, term = common(env, B, action=acts, next_action=nacts, doc=env.real("d", B, C, 1), next_doc=env.real("nd", B, C, 1), augmentation_value=env.real("v", B, C),
                     next_augmentation_value=env.real("nv", B, C), response_watch_time=env.real("w", B, K), response_click=click)
    out = tp.make_replay_buffer_trainer_preprocessor(types.SimpleNamespace(train=slate_train), torch.device("cpu"), space_env())(x)
    env.eq(out.state.float_features, env.L(x.state), "states")
    env.eq(out.next_state.float_features, env.L(x.next_state), "next states")
    for s, d, v in ((out.state, x.doc, x.augmentation_value), (out.next_state, x.next_doc, x.next_augmentation_value)):
        env.eq(s.candidate_docs.float_features, env.L(d), "documents")
        env.eq(s.candidate_docs.value, env.L(v), "document values")
        env.eq(s.candidate_docs.mask, [[1.0] * C] * B, "every document is there")
    env.eq(out.action[:, :K], env.L(acts), "slates")
    env.eq(out.next_action[:, :K], env.L(nacts), "next slates")
    env.check(out.action.shape == (B, K + 1) and out.next_action.shape == (B, K + 1), "one extra slot")
    env.eq(out.reward, [r + [0.0] for r in env.L(x.response_watch_time)], "reward of each slot")
    env.check(out.reward_mask.dtype == torch.bool and out.reward_mask.tolist() == [[bool(c) for c in r] + [not any(r)] for r in clicks], "which slots count")
    env.check(out.not_terminal.tolist() == [[not t] for t in term], "not terminal")


suite.case(bounds="3 samples, slates of 2 out of 3", B=3, K=2, C=3, clicks=[[0, 1], [0, 0], [1, 1]])(slate_case)
suite.case(bounds="1 sample, slates of 1 out of 2", B=1, K=1, C=2, clicks=[[0]])(slate_case)


def memory_case(env, B, T, n, box=False):
    """step-major sequences: the t-th step of sample b is the t-th of its stack; only the last step can be terminal"""
    S = 2
    shape = lambda *s: s + ((T,) if T > 1 else ())
    term = [bool(env.flag(f"t{b}")) for b in range(B)]
    if box:
        acts = env.real("a", *shape(B, n))
        act = lambda t, b: [(env.L(acts)[b][k][t] if T > 1 else env.L(acts)[b][k]) for k in range(n)]
    else:
        acts = env.ints("a", B, T, lo=0, hi=n - 1)
        act = lambda t, b: hot(env.L(acts)[b][t], n)
    x = stored(state=env.real("st", *shape(B, S)), next_state=env.real("ns", *shape(B, S)), action=acts, reward=env.real("r", B, T), terminal=torch.tensor(term).reshape(B, 1))
    space = spaces.Box(low=-np.ones(n, dtype=np.float32), high=np.ones(n, dtype=np.float32)) if box else spaces.Discrete(n)
    out = tp.make_replay_buffer_trainer_preprocessor(types.SimpleNamespace(train=memory_train), torch.device("cpu"), space_env(space))(x)
    at = lambda m, t, b: [(env.L(m)[b][k][t] if T > 1 else env.L(m)[b][k]) for k in range(S)]
    env.eq(out.state.float_features, [[at(x.state, t, b) for b in range(B)] for t in range(T)], "states")
    env.eq(out.next_state.float_features, [[at(x.next_state, t, b) for b in range(B)] for t in range(T)], "next states")
    env.eq(out.action, [[act(t, b) for b in range(B)] for t in range(T)], "actions")
    env.eq(out.reward, [[env.L(x.reward)[b][t] for b in range(B)] for t in range(T)], "rewards")
    env.eq(out.not_terminal, [[0.0 if t == T - 1 and term[b] else 1.0 for b in range(B)] for t in range(T)], "not terminal")


for kw in (dict(B=2, T=3, n=2), dict(B=3, T=1, n=2), dict(B=2, T=2, n=3), dict(B=2, T=1, n=2, box=True), dict(B=2, T=3, n=1, box=True)):
    suite.case(bounds="up to 3 samples of up to 3 steps", **kw)(memory_case)


def objects_in(env):
    """torch takes arrays of the harness's numbers"""
    plain = torch.from_numpy
    nest = lambda v: [nest(x) for x in v] if isinstance(v, list) else unwrap(v)
    return env.patch(torch, "from_numpy", lambda a: env.mk(nest(a.tolist())) if a.dtype == object else plain(a))


def trajectory_case(env, T, kind, shape=()):
    """one row per step of the episode, in order, whatever its length"""
    n = 3
    tr = Trajectory()
    obs, rew, lp = [[env.num(f"{c}{t}{k}", -4, 4) for k in range(2)] for c in "o" for t in range(T)], [env.num(f"r{t}", -4, 4) for t in range(T)], [env.num(f"p{t}", -3, 0) for t in range(T)]
    acts = []
    arr = lambda v: np.array(v, dtype=object if env.sym else np.float32)
    for t in range(T):
        if kind == "discrete":
            a = env.pick(f"a{t}", range(n))
            raw = np.full(shape, a, dtype=np.int64)
        elif kind == "slate":
            a = [env.pick(f"a{t}{k}", range(2)) for k in range(shape[0])]
            raw = np.array(a, dtype=np.int64)
        else:
            a = [env.num(f"a{t}{k}", -1, 1) for k in range(shape[0])]
            raw = arr(a)
        acts.append(a)
        tr.add_transition(Transition(mdp_id=0, sequence_number=t, observation=arr(obs[t]), action=raw, reward=rew[t], terminal=t == T - 1, log_prob=lp[t]))
    env.check(len(tr) == T, "length")
    space = dict(discrete=spaces.Discrete(n), box=spaces.Box(low=-np.ones(shape or (1,), dtype=np.float32), high=np.ones(shape or (1,), dtype=np.float32)))
    if kind == "slate":
        maker = tp.PolicyGradientInputMaker()
    else:
        maker = tp.make_trainer_preprocessor_online(types.SimpleNamespace(train=pg_train), torch.device("cpu"), space_env(space[kind]))
    with objects_in(env):
        out = maker(tr)
    env.eq(out.state.float_features, obs, "observations")
    env.eq(out.action, [[1.0 if k == a else 0.0 for k in range(n)] for a in acts] if kind == "discrete" else acts, "actions")
    env.eq(out.reward, rew, "rewards")
    env.eq(out.log_prob, lp, "log-probabilities")
    for g in (1.0, 0.5):
        env.eq(tr.calculate_cumulative_reward(g) if g != 1.0 else tr.calculate_cumulative_reward(), ssum(r * g ** t for t, r in enumerate(rew)), "discounted reward of the episode")


for T in (1, 2, 3):
    suite.case(bounds="episodes of up to 3 steps, discrete", T=T, kind="discrete")(trajectory_case)
    suite.case(bounds="episodes of up to 3 steps, continuous", T=T, kind="box", shape=(2,))(trajectory_case)
suite.case(bounds="1 step, action in a list", T=1, kind="discrete", shape=(1,))(trajectory_case)
suite.case(bounds="2 steps, action in a list", T=2, kind="discrete", shape=(1,))(trajectory_case)
suite.case(bounds="2 steps, one-dimensional continuous action", T=2, kind="box", shape=(1,))(trajectory_case)
suite.case(bounds="1 step, slates", T=1, kind="slate", shape=(2,))(trajectory_case)
suite.case(bounds="2 steps, slates of one", T=2, kind="slate", shape=(1,))(trajectory_case)


def slate_trajectory_case(env, T, docs):
    """an episode of slates keeps every step's user and documents, in order"""
    tr = Trajectory()
    a = lambda v: np.array(v, dtype=object if env.sym else np.float32)
    U = [[env.num(f"u{t}{k}", -4, 4) for k in range(2)] for t in range(T)]
    D = [[[env.num(f"d{t}_{i}{k}", -4, 4) for k in range(2)] for i in range(docs)] for t in range(T)]
    rew, lp = [env.num(f"r{t}", -4, 4) for t in range(T)], [env.num(f"p{t}", -3, 0) for t in range(T)]
    acts = [[(t + k) % docs for k in range(2)] for t in range(T)]
    for t in range(T):
        o = dict(user=a(U[t]), doc={str(i): a(D[t][i]) for i in range(docs)})
        tr.add_transition(Transition(mdp_id=0, sequence_number=t, observation=o, action=np.array(acts[t]), reward=rew[t], terminal=t == T - 1, log_prob=lp[t]))
    maker = tp.make_trainer_preprocessor_online(types.SimpleNamespace(train=pg_train), torch.device("cpu"), space_env(spaces.MultiDiscrete([docs] * 2)))
    with objects_in(env):
        out = maker(tr)
    env.eq(out.state.float_features, U, "users")
    env.eq(out.state.candidate_docs.float_features, D, "documents")
    env.eq(out.action, acts, "slates")
    env.eq(out.reward, rew, "rewards")
    env.eq(out.log_prob, lp, "log-probabilities")


for T, docs in ((1, 2), (3, 2), (2, 11)):
    suite.case(bounds="episodes of up to 3 steps over up to 11 documents", T=T, docs=docs)(slate_trajectory_case)


def recsim_spaces(docs, dict_docs, aug=True):
    f = lambda *s: spaces.Box(low=-np.ones(s, dtype=np.float32), high=np.ones(s, dtype=np.float32))
    doc = spaces.Dict({"topic": spaces.Discrete(3), "none": spaces.Discrete(0), "zeta": f(2), "alpha": f()}) if dict_docs == "dict" else f(2)
    d = dict(user=f(2), doc=spaces.Dict({str(i): doc for i in range(docs)}),
             response=spaces.Tuple([spaces.Dict({"click": spaces.Discrete(2), "time": f()}) for _ in range(2)]))
    if aug:
        d["augmentation"] = spaces.Dict({str(i): spaces.Dict({"value": f(), "kind": spaces.Discrete(2)}) for i in range(docs)})
    return spaces.Dict(d)


def recsim_obs(env, docs, kind, tag, empty=False):
    num = lambda n: env.num(f"{tag}{n}", -4, 4)
    a = lambda v: np.array(v, dtype=object if env.sym else np.float32)
    doc, aug = {}, {}
    for i in range(docs):
        if kind == "dict":
            doc[str(i)] = dict(topic=env.pick(f"{tag}t{i}", range(3)) if i < 2 else i % 3, none=0, zeta=a([num(f"z{i}0"), num(f"z{i}1")]), alpha=a(num(f"al{i}")))
        else:
            doc[str(i)] = a([num(f"d{i}0"), num(f"d{i}1")])
        aug[str(i)] = dict(value=num(f"v{i}"), kind=(i + 1) % 2)
    resp = None if empty else [dict(click=k, time=a(num(f"w{k}"))) for k in range(2)]
    return dict(user=a([num("u0"), num("u1")]), doc=doc, augmentation=aug, response=resp)


def recsim_obs_case(env, docs, kind):
    """a document's features are its one-hot attributes, then its numbers, each by name; its value is its own"""
    e = space_env(obs=recsim_spaces(docs, kind))
    o = recsim_obs(env, docs, kind, "x")
    out = RecsimObsPreprocessor.create_from_env(e)(o)
    env.eq(out.float_features, [list(o["user"])], "user")
    row = lambda d: [1.0 if k == d["topic"] else 0.0 for k in range(3)] + [d["alpha"].item()] + list(d["zeta"]) if kind == "dict" else list(d)
    env.eq(out.candidate_docs.float_features, [[row(d) for d in o["doc"].values()]], "documents")
    env.eq(out.candidate_docs.value, [[a["value"] for a in o["augmentation"].values()]], "document values")


suite.case(bounds="2 documents with attributes", docs=2, kind="dict")(recsim_obs_case)
suite.case(bounds="3 documents, plain vectors", docs=3, kind="box")(recsim_obs_case)
suite.case(bounds="12 documents, plain vectors", docs=12, kind="box")(recsim_obs_case)
suite.case(bounds="11 documents with attributes, two of them any", docs=11, kind="dict")(recsim_obs_case)


class Sink:
    def __init__(self):
        self.rows = []

    def add(self, **kw):
        self.rows.append(kw)


def recsim_insert_case(env, docs, kind, empty, aug):
    """every attribute of every document, slot and value is stored under its own name, in order; no response is stored as zeros"""
    e = space_env(obs=recsim_spaces(docs, kind, aug))
    o = recsim_obs(env, docs, kind, "x", empty)
    if not aug:
        del o["augmentation"]
    sink = Sink()
    act = np.array([1, 0])
    rew, lp = env.num("r", -4, 4), env.num("lp", -3, 0)
    RecSimReplayBufferInserter.create_for_env(e)(sink, Transition(mdp_id=4, sequence_number=2, observation=o, action=act, reward=rew, terminal=False, log_prob=lp))
    env.check(len(sink.rows) == 1, "one row")
    row = sink.rows[0]
    names = {"observation", "action", "reward", "terminal", "log_prob", "mdp_id", "sequence_number", "response_click", "response_time"}
    names |= {"doc_topic", "doc_zeta", "doc_alpha"} if kind == "dict" else {"doc"}
    names |= {"augmentation_value", "augmentation_kind"} if aug else set()
    env.check(set(row) == names, "stored fields")
    eqa = lambda got, want, label: env.check(np.array(got).shape == np.array(want, dtype=object).shape, label) or env.eq(np.array(got).reshape(-1).tolist(), np.array(want, dtype=object).reshape(-1).tolist(), label)
    eqa(row["observation"], list(o["user"]), "user")
    D = list(o["doc"].values())
    if kind == "dict":
        eqa(row["doc_topic"], [d["topic"] for d in D], "document attribute")
        eqa(row["doc_zeta"], [list(d["zeta"]) for d in D], "document vector")
        eqa(row["doc_alpha"], [d["alpha"].item() for d in D], "document number")
    else:
        eqa(row["doc"], [list(d) for d in D], "documents")
    if aug:
        eqa(row["augmentation_value"], [a["value"] for a in o["augmentation"].values()], "document value")
        eqa(row["augmentation_kind"], [a["kind"] for a in o["augmentation"].values()], "document kind")
    eqa(row["response_click"], [0, 0] if empty else [0, 1], "clicks")
    eqa(row["response_time"], [0.0, 0.0] if empty else [r["time"].item() for r in o["response"]], "times")
    env.eq([row["reward"], row["log_prob"]], [rew, lp], "reward and log-probability")
    env.check(row["mdp_id"] == 4 and row["sequence_number"] == 2 and row["terminal"] is False and (row["action"] == act).all(), "bookkeeping")


for kw in (dict(docs=2, kind="dict", empty=False, aug=True), dict(docs=2, kind="dict", empty=True, aug=False), dict(docs=3, kind="box", empty=False, aug=True), dict(docs=1, kind="box", empty=True, aug=True), dict(docs=11, kind="box", empty=False, aug=True)):
    suite.case(bounds="up to 3 documents, or 11, slates of 2", **kw)(recsim_insert_case)


def stored_case(env, T, n):
    """transitions added one by one, sampled and preprocessed: every step meets its own mask, log-probability and successor"""
    term = [bool(env.flag(f"t{t}")) for t in range(T)]
    num = lambda name, lo=-4, hi=4, first=0.5: env.num(name, lo, hi)
    f = (lambda x: x) if env.sym else np.float32
    rows = []
    with symbolic_storage(env):
        buf = ReplayBuffer(stack_size=1, replay_capacity=T + 1, batch_size=1, update_horizon=1, gamma=0.5)
        ins = BasicReplayBufferInserter()
        for t in range(T):
            r = dict(obs=env.num(f"o{t}", -4, 4), rew=env.num(f"r{t}", -4, 4), lp=env.num(f"p{t}", -3, 0), act=env.pick(f"a{t}", range(n)), term=term[t], mask=[(t + k) % 2 == 0 for k in range(n)])
            if t == 0:
                r.update(obs=0.5, rew=0.25, lp=-0.5)
            g = np.float32 if t == 0 else f
            rows.append(r)
            ins(buf, Transition(mdp_id=0, sequence_number=t, observation=g(r["obs"]), action=r["act"], reward=g(r["rew"]), terminal=r["term"], log_prob=g(r["lp"]), possible_actions_mask=np.array(r["mask"])))
        ok = [t for t in range(T) if t < T - 1 or term[t]]
        if not ok:
            return
        raw = buf.sample_transition_batch(batch_size=len(ok), indices=torch.tensor(ok))
        x = tp.make_replay_buffer_trainer_preprocessor(types.SimpleNamespace(train=dqn_train), torch.device("cpu"), space_env(spaces.Discrete(n)))(raw)
    one = lambda t: [rows[t]["obs"]]
    for b, t in enumerate(ok):
        r = rows[t]
        env.eq(x.state.float_features[b], one(t), "state")
        env.eq(x.action[b], [1.0 if k == r["act"] else 0.0 for k in range(n)], "action")
        env.eq(x.reward[b], [r["rew"]], "reward")
        env.eq(x.not_terminal[b], [0.0 if r["term"] else 1.0], "not terminal")
        env.eq(x.possible_actions_mask[b], [1.0 if m else 0.0 for m in r["mask"]], "possible actions")
        env.eq(x.extras.action_probability[b], [sexp(r["lp"])], "probability")
        if r["term"]:
            env.eq(x.next_action[b], [0.0] * n, "no next action after the end")
        else:
            nx = rows[t + 1]
            env.eq(x.next_state.float_features[b], one(t + 1), "next state")
            env.eq(x.next_action[b], [1.0 if k == nx["act"] else 0.0 for k in range(n)], "next action")
            env.eq(x.possible_next_actions_mask[b], [1.0 if m else 0.0 for m in nx["mask"]], "possible next actions")


suite.case(bounds="3 additions, any placement of episode ends", T=3, n=2)(stored_case)
suite.case(tier="thorough", bounds="5 additions, any placement of episode ends", T=5, n=2)(stored_case)


def refuse_case(env):
    """unknown or missing batch types and episodes whose optional fields come and go are refused"""
    dev = torch.device("cpu")
    mk = lambda f: tp.make_replay_buffer_trainer_preprocessor(types.SimpleNamespace(train=f), dev, space_env(spaces.Discrete(2)))
    env.check(env.raises(lambda: mk(untyped_train)), "a trainer without a batch type")
    env.check(env.raises(lambda: mk(pg_train), KeyError), "a trainer of another kind")
    env.check(env.raises(lambda: mk(lambda x: None)), "a trainer without a batch")
    step = lambda t, **kw: Transition(mdp_id=0, sequence_number=t, observation=0, action=0, reward=0.0, terminal=False, **kw)
    opts = dict(log_prob=0.0, possible_actions_mask=np.ones(2))
    have = [{k: v for k, v in opts.items() if env.flag(f"{k}{t}")} for t in range(3)]
    have = [{k: v for k, v in h.items()} for h in have]
    tr = Trajectory()
    for t, h in enumerate(have):
        same = set(h) == set(have[0])
        env.check(env.raises(lambda: tr.add_transition(step(t, **h)), ValueError) == (not same), "fields are all there or all absent")
        env.check(set(step(t, **h).asdict()) == {"mdp_id", "sequence_number", "observation", "action", "reward", "terminal"} | set(h), "absent fields are left out")
    env.check(env.raises(lambda: Trajectory().calculate_cumulative_reward()), "no reward of an empty episode")


suite.case(bounds="3 steps, any presence of the optional fields")(refuse_case)
