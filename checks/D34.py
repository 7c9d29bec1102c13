"""Running episodes: what the agent sees, what is recorded, when training happens."""
import pickle
import types
import numpy as np
from gym import spaces
from reagent.core import multiprocess_utils
from reagent.gym import utils as gym_utils
from reagent.gym.agents import post_episode, post_step
from reagent.gym.agents.agent import Agent
from reagent.gym.datasets import replay_buffer_dataset as rbd
from reagent.gym.envs.env_wrapper import EnvWrapper
from reagent.gym.envs.gym import Gym
from reagent.gym.policies.policy import Policy
from reagent.gym.runners import gymrunner
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.tensorboardX import SummaryWriterContext
from checks.common import *
from checks.replay import symbolic_storage

suite = Suite("D34", ["environments end episodes at any step up to the stated number; the step limit counts from zero, so that an episode runs one step longer than its number",
                      "log-probabilities lie in [-3, 0], rewards in [-4, 4]"])


class World:
    """an environment of arbitrary rewards and episode ends; observation (e, t) is the t-th of episode e"""

    def __init__(self, env, limit, masks=True, obs=None, first=0, max_steps=None):
        self.env, self.limit, self.masks, self.make = env, limit, masks, obs
        self.e, self.t, self.done, self.log, self.rewards, self.ends = first - 1, 0, True, [], {}, {}
        self.action_space = spaces.Discrete(2)
        self.max_steps = max_steps

    def obs(self):
        return self.make(self.e, self.t) if self.make else (self.e, self.t)

    def reset(self):
        self.e, self.t, self.done = self.e + 1, 0, False
        return self.obs()

    @property
    def possible_actions_mask(self):
        return np.array([True, (self.e + self.t) % 2 == 0]) if self.masks else None

    def step(self, action):
        assert not self.done
        k = (self.e, self.t)
        self.log.append((k, action))
        self.rewards[k] = self.env.num(f"r{self.e}_{self.t}", -4, 4)
        self.ends[k] = self.done = bool(self.t + 1 >= self.limit or self.env.flag(f"end{self.e}_{self.t}"))
        self.t += 1
        return self.obs(), self.rewards[k], self.done, {}

    def length(self, e, cap=None):
        t = 0
        while not (self.ends.get((e, t), True) or (cap is not None and t >= cap)):
            t += 1
        return t + 1

    get_obs_preprocessor = EnvWrapper.get_obs_preprocessor
    get_action_extractor = EnvWrapper.get_action_extractor
    action_extractor = EnvWrapper.action_extractor
    unwrapped = None


class Mind:
    """a policy that answers with the index of the call"""

    def __init__(self, env, probs=True):
        self.env, self.probs, self.seen, self.lps = env, probs, [], []

    def act(self, obs, mask=None):
        self.seen.append((obs, mask))
        lp = None
        if self.probs:
            lp = self.env.num(f"lp{len(self.seen) - 1}", -3, 0)
            self.lps.append(lp)
            lp = self.env.mk([unwrap(lp)]) if self.env.sym else torch.tensor([lp])
        return rlt.ActorOutput(action=torch.tensor([[len(self.seen) - 1]]), log_prob=lp)


def agent_of(mind, **kw):
    return Agent(mind, obs_preprocessor=lambda o: ("seen", o), action_extractor=lambda out: ("do", int(out.action)), **kw)


def quiet(env, *mods):
    """numbers stay what they are; nothing is printed"""
    import contextlib
    st = contextlib.ExitStack()
    for m in mods:
        if env.sym:
            st.enter_context(env.patch(m, "float", lambda x: x))
        st.enter_context(env.patch(m, "print", lambda *a: None))
    return st


def check_transitions(env, got, world, mind, e, mdp_id, cap, start):
    """transitions got are those of episode e of the world"""
    T = world.length(e, cap)
    env.check(len(got) == T, "one transition per step")
    for t, tr in enumerate(got):
        k = start + t
        env.check(tr.observation == (e, t), "observation acted on")
        env.check(tr.action == ("do", k) and world.log[k] == ((e, t), ("do", k)), "action taken")
        env.check(mind.seen[k][0] == ("seen", (e, t)), "the policy saw the preprocessed observation")
        m = world.masks and [True, (e + t) % 2 == 0]
        same = lambda x: x is None if not world.masks else list(x) == m
        env.check(same(mind.seen[k][1]) and same(tr.possible_actions_mask), "possible actions of the same state")
        env.eq(tr.reward, world.rewards[(e, t)], "reward")
        env.check(tr.terminal is (t == T - 1), "terminal exactly at the end")
        env.check(tr.mdp_id == mdp_id and tr.sequence_number == t, "episode and step number")
        if mind.probs:
            env.eq(tr.log_prob, mind.lps[k], "log-probability")
        else:
            env.check(tr.log_prob is None, "no log-probability")
    return start + T


def run_case(env, limit, cap, masks, probs, episodes=2):
    """every step of an episode is recorded with what the agent saw and did; the callbacks are told of each step before the next, and of the whole episode once"""
    w, mind = World(env, limit, masks), Mind(env, probs)
    told, whole = [], []
    a = agent_of(mind, post_transition_callback=lambda tr: told.append((tr, len(w.log))), post_episode_callback=whole.append)
    start, seen = 0, 0
    step0 = SummaryWriterContext._global_step
    for e in range(episodes):
        with quiet(env, gymrunner):
            tr = gymrunner.run_episode(w, a, mdp_id=7 + e, max_steps=cap)
        start = check_transitions(env, tr.transitions, w, mind, e, 7 + e, cap, start)
        env.check([x is y for (x, _), y in zip(told[seen:], tr.transitions)] == [True] * len(tr) and len(told) == start, "the step callback is told of each step")
        env.check([n for _, n in told[seen:]] == list(range(seen + 1, start + 1)), "right after it happens")
        env.check(len(whole) == e + 1 and whole[e] is tr, "the episode callback is told once")
        seen = start
        # the other fields read out as columns
        env.check(tr.sequence_number == list(range(len(tr))) and tr.terminal[-1] is True, "columns of the trajectory")
    env.check(SummaryWriterContext._global_step - step0 == start, "the global step advances with each step")


for kw in (dict(limit=3, cap=None, masks=True, probs=True), dict(limit=4, cap=1, masks=True, probs=False), dict(limit=3, cap=0, masks=False, probs=True), dict(limit=3, cap=5, masks=False, probs=False)):
    suite.case(bounds="2 episodes of up to 4 steps", **kw)(run_case)
suite.case(tier="thorough", bounds="3 episodes of up to 5 steps", limit=5, cap=3, masks=True, probs=True, episodes=3)(run_case)


class InlinePool:
    """runs in this process what a pool would"""
    sizes = []
    fail = False

    def __init__(self, n):
        InlinePool.sizes.append(n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, fn, xs):
        if InlinePool.fail:
            raise pickle.PickleError("no")
        return [fn(x) for x in xs]


class Box:
    """a pickle that keeps the very objects"""

    def __init__(self, v):
        self.v = v


def evaluate_case(env, n, limit, gammas, procs, fail=False, cap=None):
    """row i holds the i-th episode's discounted rewards, one column per discount, however the episodes are spread"""
    w, mind = World(env, limit), Mind(env)
    InlinePool.sizes, InlinePool.fail = [], fail
    pick = types.SimpleNamespace(dumps=Box, loads=lambda b: b.v)
    nps = types.SimpleNamespace(empty=lambda s: np.empty(s, dtype=object if env.sym else float), array=np.array, ndarray=np.ndarray)
    with quiet(env, gymrunner), env.patch(gymrunner.mp, "Pool", InlinePool), env.patch(multiprocess_utils, "cloudpickle", pick), env.patch(gymrunner, "np", nps), \
            env.patch(gymrunner.logger, "info", lambda *a: None):
        out = gymrunner.evaluate_for_n_episodes(n, w, agent_of(mind), max_steps=cap, gammas=gammas, num_processes=procs)
    env.check(InlinePool.sizes == ([min(n, procs)] if min(n, procs) > 1 else []), "number of processes")
    env.check(out.shape == (n, len(gammas)), "shape")
    for i in range(n):
        T = w.length(i, cap)
        for j, g in enumerate(gammas):
            env.eq(out[i, j], ssum(g ** t * w.rewards[(i, t)] for t in range(T)), "discounted reward of the episode", 1e-5)


for kw in (dict(n=2, limit=2, gammas=[1.0, 0.5], procs=1), dict(n=1, limit=3, gammas=[0.5], procs=4), dict(n=3, limit=2, gammas=[0.5, 1.0, 0.25], procs=2),
           dict(n=2, limit=2, gammas=[1.0, 0.5], procs=3, fail=True), dict(n=2, limit=4, gammas=[0.5], procs=1, cap=1)):
    suite.case(bounds="up to 3 episodes of up to 4 steps", **kw)(evaluate_case)


class Store:
    """a buffer that knows what it holds"""

    def __init__(self, sizes=None):
        self.rows, self.sampled = [], []

    @property
    def size(self):
        return len(self.rows)

    def sample_transition_batch(self, batch_size):
        self.sampled.append(batch_size)
        return ("batch", batch_size, len(self.rows))


def dataset_case(env, limit, episodes, B, freq, cap, pre, via):
    """iterating runs the episodes and stores every step before sampling; a batch is made at every freq-th step once the buffer holds enough"""
    w, mind, buf = World(env, limit), Mind(env), Store()
    ins = lambda b, tr: b.rows.append(tr)
    p = (lambda b: ("prepared", b)) if pre else None
    kw = dict(env=w, agent=agent_of(mind), replay_buffer=buf, batch_size=B, training_frequency=freq, num_episodes=episodes, max_steps=cap)
    if via == "trainer":
        made = []
        def make_pre(trainer, device, e):
            made.append((trainer, e))
            return p
        with env.patch(rbd, "make_replay_buffer_trainer_preprocessor", make_pre), env.patch(rbd, "make_replay_buffer_inserter", lambda e: ins):
            d = rbd.ReplayBufferDataset.create_for_trainer("trainer", **kw)
        env.check(made == [("trainer", w)], "the preprocessor is the trainer's")
    else:
        d = rbd.ReplayBufferDataset(trainer_preprocessor=p, replay_buffer_inserter=ins, **kw)
    with quiet(env, rbd):
        out = list(d)
    start = 0
    for e in range(episodes):
        T = w.length(e, cap)
        check_transitions(env, buf.rows[start:start + T], w, mind, e, e, cap, start)
        start += T
    env.check(len(buf.rows) == start and len(w.log) == start, "the episodes asked for and no more")
    want = [("batch", B, k + 1) for k in range(start) if k % freq == 0 and k + 1 >= B]
    env.check(out == ([("prepared", b) for b in want] if pre else want), "batches")


for kw in (dict(limit=3, episodes=2, B=1, freq=1, cap=None, pre=True, via="trainer"), dict(limit=3, episodes=2, B=3, freq=2, cap=None, pre=True, via="direct"),
           dict(limit=3, episodes=3, B=2, freq=3, cap=1, pre=False, via="direct"), dict(limit=2, episodes=0, B=1, freq=1, cap=None, pre=True, via="direct")):
    suite.case(bounds="up to 3 episodes of up to 3 steps", **kw)(dataset_case)


def train_step_case(env, n, freq, B, have):
    """training follows every freq-th insertion, the first included, and needs a full batch"""
    buf, trained = Store(), []
    buf.rows = list(range(have))
    ins = lambda b, tr: b.rows.append(tr)
    made = []
    def make_pre(trainer, device, e):
        made.append((trainer, device.type, e))
        return lambda b: ("prepared", b)
    trainer = types.SimpleNamespace(train=trained.append)
    with env.patch(post_step, "make_replay_buffer_trainer_preprocessor", make_pre), env.patch(post_step, "make_replay_buffer_inserter", lambda e: ins):
        f = post_step.train_with_replay_buffer_post_step(buf, "world", trainer, training_freq=freq, batch_size=B)
        g = post_step.add_replay_buffer_post_step(plain := Store(), "world")
    env.check(made == [(trainer, "cpu", "world")], "the preprocessor is the trainer's")
    want = []
    for k in range(n):
        short = k % freq == 0 and have + k + 1 < B
        env.check(env.raises(lambda: f(("step", k))) == short, "too few stored steps to train on are refused")
        if short:
            return
        if k % freq == 0:
            want.append(("prepared", ("batch", B, have + k + 1)))
        env.check(buf.rows[-1] == ("step", k) and len(buf.rows) == have + k + 1, "every step is stored")
        env.check(trained == want, "batches trained on")
        g(("step", k))
        env.check(plain.rows == [("step", j) for j in range(k + 1)] and not plain.sampled, "every step is stored")


for kw in (dict(n=5, freq=2, B=1, have=0), dict(n=4, freq=1, B=3, have=2), dict(n=4, freq=3, B=2, have=0), dict(n=3, freq=2, B=4, have=3)):
    suite.case(bounds="up to 5 steps", **kw)(train_step_case)


def post_episode_case(env):
    """after each episode the trainer trains on it, preprocessed"""
    trained = []
    trainer = types.SimpleNamespace(train=trained.append)
    with env.patch(post_episode, "make_trainer_preprocessor_online", lambda t, d, e: (lambda x: ("prepared", t, d.type, e, x))):
        f = post_episode.train_post_episode("world", trainer, False)
    env.check(trained == [], "not before")
    for k in range(2):
        f(("episode", k))
        env.check(trained == [("prepared", trainer, "cpu", "world", ("episode", j)) for j in range(k + 1)], "batches trained on")


suite.case(bounds="2 episodes")(post_episode_case)


def fill_case(env, desired, capacity, stack, n, limit, before=0, max_steps=None):
    """filling stops at the size asked for (never beyond), with whole transitions of consecutive steps"""
    w = World(env, limit, masks=False, obs=lambda e, t: np.float32(10 * e + t), max_steps=max_steps)
    w.action_extractor = lambda out: types.SimpleNamespace(cpu=lambda: types.SimpleNamespace(numpy=lambda: np.int64(out.action[0].tolist().index(1))))
    w.obs_preprocessor = lambda o: rlt.FeatureData(torch.tensor([[float(o)]]))
    acts = []
    class Random:
        def act(self, obs, mask=None):
            acts.append(env.pick(f"a{len(acts)}", [0, 1]) if len(acts) < 2 else len(acts) % 2)
            return rlt.ActorOutput(action=torch.nn.functional.one_hot(torch.tensor([acts[-1]]), 2), log_prob=torch.tensor([-0.5]))
    store = {}
    with symbolic_storage(env), quiet(env, gymrunner, gym_utils):
        buf = ReplayBuffer(stack_size=stack, replay_capacity=capacity, batch_size=1, update_horizon=n, gamma=0.5)
        sizes = []
        keep = post_step.add_replay_buffer_post_step
        def watch(*a, **k):
            f = keep(*a, **k)
            def g(tr):
                # the first stored step fixes the column types, so it is concrete
                if not sizes:
                    tr.reward, tr.log_prob = np.float32(0.25), -0.5
                    store["first"] = True
                f(tr)
                sizes.append(int(buf.size))
                rows.append((float(tr.observation), int(tr.action), tr.terminal, tr.mdp_id, tr.sequence_number))
            return g
        rows = []
        with env.patch(gym_utils, "make_random_policy_for_env", lambda e: Random()), env.patch(gym_utils, "add_replay_buffer_post_step", watch), \
                env.patch(gym_utils, "tqdm", Bar), env.patch(gym_utils.logger, "info", lambda *a: None):
            gym_utils.fill_replay_buffer(w, buf, desired)
    env.check(max(sizes) <= desired, "never more than asked for")
    env.check(int(buf.size) == desired, "as many as asked for")
    e = 0
    for k, (o, a, term, mdp, seq) in enumerate(rows):
        env.check(o == 10 * mdp + seq and a == acts[k], "stored step")
    per = [[r for r in rows if r[3] == m] for m in range(rows[-1][3] + 1)]
    env.check(all([r[4] for r in p] == list(range(len(p))) and [r[2] for r in p] == [False] * (len(p) - 1) + [True] for p in per), "whole episodes in order")
    if max_steps is not None:
        env.check(all(len(p) <= max_steps + 1 for p in per), "the environment's own limit holds")


class Bar:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, n):
        pass


for kw in (dict(desired=4, capacity=4, stack=1, n=1, limit=3), dict(desired=3, capacity=12, stack=2, n=1, limit=3), dict(desired=4, capacity=8, stack=1, n=2, limit=3), dict(desired=4, capacity=6, stack=1, n=1, limit=9, max_steps=1)):
    suite.case(bounds="up to 4 transitions, any placement of episode ends", **kw)(fill_case)


def fill_refuse_case(env):
    cap, have, want = env.pick("cap", [2, 3]), env.pick("have", [0, 1, 2]), env.pick("want", [0, 1, 2, 3, 4])
    b = types.SimpleNamespace(_replay_capacity=cap, size=have)
    def boom(e):
        raise KeyError
    with env.patch(gym_utils, "make_random_policy_for_env", boom), env.patch(gym_utils.logger, "info", lambda *a: None):
        bad = env.raises(lambda: gym_utils.fill_replay_buffer(None, b, want), AssertionError)  if not (0 < want <= cap and have < want) else not env.raises(lambda: gym_utils.fill_replay_buffer(None, b, want), KeyError)
    env.check(bad == (not (0 < want <= cap and have < want)), "impossible sizes are refused")


suite.case(bounds="listed capacities and sizes")(fill_refuse_case)


def agent_case(env, serving, box=False):
    """an agent made for an environment uses that environment's preprocessing of observations and actions"""
    calls = []
    class E:
        action_space = spaces.Box(low=np.array([-4, 0, 1], dtype=np.float32), high=np.array([4, 2, 2], dtype=np.float32)) if box else spaces.Discrete(3)
        observation_space = spaces.Box(low=-np.ones(2, dtype=np.float32), high=np.ones(2, dtype=np.float32))
        get_obs_preprocessor, get_serving_obs_preprocessor = EnvWrapper.get_obs_preprocessor, EnvWrapper.get_serving_obs_preprocessor
        get_action_extractor, get_serving_action_extractor = EnvWrapper.get_action_extractor, EnvWrapper.get_serving_action_extractor
        obs_preprocessor, serving_obs_preprocessor = Gym.obs_preprocessor, Gym.serving_obs_preprocessor
        action_extractor, serving_action_extractor = EnvWrapper.action_extractor, EnvWrapper.serving_action_extractor
    sc, lp = env.real("sc", 1, 3, lo=-1 if box else None, hi=1 if box else None), env.num("lp", -3, 0)
    v = env.L(sc)[0]
    for i in range(0 if box else 3):
        for j in range(i):
            env.assume(sabs(v[i] - v[j]) >= 0.0625)
    seen = []
    def scorer(*a):
        seen.append(a)
        return "scores"
    def sample(s):
        seen.append(s)
        return rlt.ActorOutput(action=sc, log_prob=env.mk([unwrap(lp)]) if env.sym else torch.tensor([lp]))
    pol = Policy(scorer=scorer, sampler=types.SimpleNamespace(sample_action=sample))
    a = (Agent.create_for_env_with_serving_policy if serving else Agent.create_for_env)(E(), pol)
    o = [env.num("o0", -4, 4), env.num("o1", -4, 4)]
    mask = np.array([True, False, True]) if env.pick("masked", [False, True]) else None
    act, got = a.act(np.array(o, dtype=object) if env.sym else np.array(o, dtype=np.float32), mask)
    env.eq(got, lp, "log-probability")
    if not box:
        best = argmax_first(v)
        env.check(best == int(act), "action")
    elif serving:
        env.eq(list(act), v, "action as the published model gives it")
    else:       # the training range is [-1 + 1e-6, 1 - 1e-6]
        w = 2 - 2e-6
        env.close(list(act), [(x + w / 2) / w * (h - l) + l for x, l, h in zip(v, [-4, 0, 1], [4, 2, 2])], "action in the environment's range", 1e-4)
    env.check(seen[1] == "scores" and len(seen[0]) == (1 if mask is None else 2), "scored, then sampled")
    env.check(mask is None or seen[0][1] is mask, "mask")
    if serving:
        env.eq(seen[0][0][0], [o], "values")
        env.eq(seen[0][0][1], [[1.0, 1.0]], "presence")
    else:
        env.eq(seen[0][0].float_features, [o], "features")


suite.case(bounds="2 features, 3 actions", serving=False)(agent_case)
suite.case(bounds="2 features, 3 actions", serving=True)(agent_case)
suite.case(bounds="2 features, an action of 3 numbers", serving=False, box=True)(agent_case)
suite.case(bounds="2 features, an action of 3 numbers", serving=True, box=True)(agent_case)
