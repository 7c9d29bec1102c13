"""Simulated environments: bandits with changing arms, slate simulators, ranking oracles, linear dynamics, masked actions."""
import types
import gym
import numpy as np
from gym import spaces
from reagent.gym.envs import changing_arms as ca
from reagent.gym.envs import oracle_pvm as op
from reagent.gym.envs import toy_vm
from reagent.gym.envs.dynamics.linear_dynamics import LinDynaEnv
from reagent.gym.envs.env_wrapper import EnvWrapper
from reagent.gym.envs.functionality.possible_actions_mask_tester import PossibleActionsMaskTester
from reagent.gym.envs.gym import Gym
from reagent.gym.envs.recsim import RecSim, dot_value_fn, multi_selection_value_fn
from reagent.gym.envs.wrappers.recsim import ValueWrapper
from reagent.gym.envs.wrappers.simple_minigrid import SimpleObsWrapper
from checks.common import *

suite = Suite("D39", ["arm values start in [1, 30] and fall by [1, 20] per pull; an episode runs one step past its limit, as the step number counts from zero",
                      "features of documents lie in [0, 1] and weighted sums of different documents differ by at least 1/64"])


def arr(env, x):
    return np.array(x, dtype=object if env.sym else np.float64)


def arms_case(env, T):
    """pulling a legal arm pays what its value drops by and moves no other arm; an illegal arm ends the episode; exhausted arms stay illegal"""
    start, drop = env.num("start", 1, 30), env.num("drop", 1, 20)
    n = 5
    limit = env.pick("limit", [0, 1, 49])
    S1 = (lambda x: env.mk([unwrap(x)] * n)) if env.sym else (lambda x: torch.tensor([x] * n))
    drawn = []

    def bernoulli(p):
        for x in p.tolist():
            env.check(0 < x <= 1, "every arm has a chance")
        k = len(drawn)
        drawn.append([1 if k >= T or i not in (0, 3) or p[i] == 1 else env.pick(f"legal{k}_{i}", [1, 0]) for i in range(n)])
        return torch.tensor([float(x) for x in drawn[-1]])
    with env.patch(ca, "get_initial_mus", lambda k: S1(start)), env.patch(ca, "get_mu_changes", lambda k: S1(-drop)), env.patch(torch, "bernoulli", bernoulli):
        e = ca.ChangingArmsEnv(n)
        e.max_steps = limit
        obs = e.reset()
        mus, dead = [start] * n, [False] * n
        for t in range(T + 1):
            rows = [list(r) for r in obs]
            env.check(len(drawn) == t + 1, "legal arms are drawn once per observation")
            legal = [x == 1 and not d for x, d in zip(drawn[-1], dead)]
            env.eq(rows[0], mus, "values of the arms")
            env.eq(rows[1], [1 if x else 0 for x in legal], "legal arms")
            env.eq(rows[2], [-drop] * n, "what a pull would change")
            if t == T:
                break
            a = env.pick(f"a{t}", [0, 3, n])
            obs, r, done, _ = e.step(np.array(a) if a == 3 else a)
            if a == n:
                env.eq(r, -500.0, "price of idling")
                env.check(bool(done) == (t >= limit), "end of the episode")
            elif not legal[a]:
                env.eq(r, -1000.0, "price of an illegal arm")
                env.check(bool(done), "an illegal arm ends the episode")
            else:
                env.close([r], [drop], "reward is the drop of the arm's value", 1e-4)
                mus = [m - drop if i == a else m for i, m in enumerate(mus)]
                dead = [sor(d, m <= 0) if i == a else d for i, (d, m) in enumerate(zip(dead, mus))]
                dead = [bool(x) for x in dead]
                env.check(bool(done) == (t >= limit), "end of the episode")
            if done:
                break
        again = e.reset()
        env.eq(list(again[0]), [start] * n, "a new episode starts over")
        env.eq(list(again[1]), drawn[-1], "exhausted arms come back")
        env.refuses(lambda: e.step(n + 1), AssertionError)
        env.refuses(lambda: e.step(-1), AssertionError)


suite.case(bounds="2 pulls of 5 arms, every starting value and drop, every draw of legal arms", T=2)(arms_case)
suite.case("thorough", bounds="3 pulls of 5 arms, every starting value and drop, every draw of legal arms", T=3)(arms_case)


def arms_obs_case(env, n, B):
    """observations become features: values, the list of legal arms, a score per arm; a batch holds the same lists back to back"""
    w = ca.ChangingArms(num_arms=n)
    o = [[[env.num(f"m{b}_{i}", 0, 100) for i in range(n)], [1.0 if env.flag(f"l{b}_{i}") else 0.0 for i in range(n)], [env.num(f"c{b}_{i}", -10, 10) for i in range(n)]] for b in range(B)]
    T = lambda x: env.mk(unwrap_all(x)) if env.sym else torch.tensor(x)
    legal = [[i for i in range(n) if o[b][1][i] == 1.0] for b in range(B)]
    for b in range(B):
        f = w.obs_preprocessor(arr(env, o[b]) if env.sym else np.array(o[b], dtype=np.float32))
        env.eq(env.L(f.float_features), [o[b][0]], "values")
        off, val = f.id_list_features["legal"]
        env.check(off.tolist() == [0] and val.tolist() == legal[b], "legal arms")
        off, key, val = f.id_score_list_features["mu_changes"]
        env.check(off.tolist() == [0] and key.tolist() == list(range(n)), "arms with a score")
        env.eq(env.L(val), o[b][2], "scores")
        s = w.serving_obs_preprocessor(arr(env, o[b]) if env.sym else np.array(o[b], dtype=np.float32))
        env.eq(env.L(s.float_features_with_presence[0]), [o[b][0]], "values served")
        env.check(s.float_features_with_presence[1].tolist() == [[1] * n], "all values are present")
        off, val = s.id_list_features[ca.ID_LIST_FEATURE_ID]
        env.check(off.tolist() == [0] and val.tolist() == [i + ca.ID_LIST_OFFSET for i in legal[b]], "legal arms served")
        off, key, val = s.id_score_list_features[ca.ID_SCORE_LIST_FEATURE_ID]
        env.check(off.tolist() == [0] and key.tolist() == [i + ca.ID_SCORE_LIST_OFFSET for i in range(n)], "arms with a score served")
        env.eq(env.L(val), o[b][2], "scores served")
        d, l, sc = w.split_state_transform(T(o[b]))
        env.check(list(d) == list(range(n)) and l == {ca.ID_LIST_FEATURE_ID: [i + ca.ID_LIST_OFFSET for i in legal[b]]}, "lists of a table row")
        env.eq(list(d.values()), o[b][0], "values of a table row")
        env.check(list(sc) == [ca.ID_SCORE_LIST_FEATURE_ID] and list(sc[ca.ID_SCORE_LIST_FEATURE_ID]) == [i + ca.ID_SCORE_LIST_OFFSET for i in range(n)], "scored arms of a table row")
        env.eq(list(sc[ca.ID_SCORE_LIST_FEATURE_ID].values()), o[b][2], "scores of a table row")
    f = w.trainer_preprocessor(T(o))
    env.eq(env.L(f.float_features), [x[0] for x in o], "values of the batch")
    off, val = [x.tolist() for x in f.id_list_features["legal"]]
    env.check(len(off) == B and val == [i for l in legal for i in l], "legal arms of the batch, back to back")
    ends = off[1:] + [len(val)]
    env.check([val[a:z] for a, z in zip(off, ends)] == legal, "each row finds its own legal arms")
    off, key, val = f.id_score_list_features["mu_changes"]
    env.check(off.tolist() == [b * n for b in range(B)] and key.tolist() == list(range(n)) * B, "scored arms of the batch")
    env.eq(env.L(val), [x for r in o for x in r[2]], "scores of the batch")


def unwrap_all(x):
    return [unwrap_all(v) for v in x] if isinstance(x, (list, tuple)) else unwrap(x)


for n, B in [(2, 3), (3, 2), (2, 1)]:
    suite.case(bounds=f"{B} observations of {n} arms, every set of legal arms", n=n, B=B)(arms_obs_case)


class Rolls:
    """a random source whose rolls are arbitrary"""
    made = 0

    def __init__(self, env, tag):
        self.env, self.tag, self.seen = env, tag, []

    def rand(self):
        self.seen.append(self.env.num(f"{self.tag}{len(self.seen)}", 0, 0.999))
        return self.seen[-1]


def cascade_case(env, n):
    """a visitor taps the first document with its tap chance, then walks on until he abandons or the slate ends, collecting quality"""
    docs = [toy_vm.Document(env.num(f"t{i}", 0, 1), env.num(f"q{i}", 0, 1), env.num(f"b{i}", 0, 1)) for i in range(n)]
    p = Rolls(env, "u")
    r = toy_vm.simulate_reward(docs, p)
    want, i = 0, 0
    while i < n:
        go = docs[0].tap if i == 0 else 1 - docs[i - 1].abandon
        if bool(p.seen[i] > go):
            break
        want = want + docs[i].quality
        i += 1
    env.check(n <= len(p.seen) <= n + 1 if i == n else len(p.seen) == i + 1, "one roll per document reached")
    env.eq(r, want, "quality collected")


for n in (0, 1, 3):
    suite.case(bounds=f"{n} documents, every chance and roll", n=n)(cascade_case)
suite.case("thorough", bounds="6 documents, every chance and roll", n=6)(cascade_case)


def slate_env_case(env, n=3):
    """a step shows the chosen documents in the chosen order and then draws new ones; the same seed replays the same candidates and rewards"""
    stock = [toy_vm.Document(*x) for x in [(0.25, 0.5, 0.75), (1.0, 0.25, 0.5), (0.5, 1.0, 0.0), (0.125, 0.375, 0.625), (0.875, 0.0, 1.0), (0.75, 0.125, 0.25)]]
    drawn, shown = [], []
    sources = []

    def doc(prng):
        sources.append(prng)
        drawn.append(stock[len(drawn) % len(stock)])
        return drawn[-1]

    def reward(slate, prng):
        shown.append((list(slate), prng))
        return x
    x = env.num("x", 0, 3)
    with env.patch(toy_vm, "random_document", doc), env.patch(toy_vm, "simulate_reward", reward):
        e = toy_vm.ToyVMEnv(n)
        e.seed(3)
        obs = e.reset()
        a = [env.pick(f"a{i}", list(range(n))) for i in range(n)]
        obs2, r, done, info = e.step(np.array(a))
    env.check(len(drawn) == 2 * n, "new candidates for every observation")
    for k, o in enumerate((obs, obs2)):
        env.check(list(o["doc"]) == [str(i) for i in range(n)], "documents in order")
        for i in range(n):
            env.check([float(v) for v in o["doc"][str(i)]] == list(drawn[k * n + i]), "document")
        env.check([float(v) for v in np.ravel(o["user"])] == [0.0], "no user features")
    env.check(shown[0][0] == [drawn[i] for i in a] and len(shown) == 1, "slate in the order of the action")
    env.check(shown[0][1] not in sources and len(set(map(id, sources))) == 1, "visitors and documents have their own random source")
    env.eq(r, x, "reward of the slate")
    env.check(done is False and info["documents"] == drawn[n:], "goes on with the new candidates")


suite.case(bounds="3 candidates, every slate")(slate_env_case)


def seed_case(env):
    """a seed given in the configuration is used, zero included; episodes stop at the configured number of steps"""
    n, steps = 2, env.pick("steps", [1, 2])
    s = env.pick("seed", [0, 1, 7])
    runs = []
    for _ in range(2):
        w = toy_vm.ToyVM(slate_size=n, max_episode_steps=steps, initial_seed=s)
        o = w.reset()
        tr = [o]
        for t in range(steps):
            o, r, done, _ = w.step(np.array([1, 0]))
            tr += [o, r]
            env.check(bool(done) == (t == steps - 1), "step limit")
        runs.append(tr)
        for k, v in o["augmentation"].items():
            env.check(float(v["value"]) == 0.0, "value column")
        f = w.obs_preprocessor(o)
        env.shape(f.candidate_docs.float_features, (1, n, 3), "candidates")
        env.close([x for d in env.L(f.candidate_docs.float_features)[0] for x in d], [float(x) for d in o["doc"].values() for x in d], "candidates as features", 1e-5)
    env.check(str(runs[0]) == str(runs[1]), "same seed, same episode")


suite.case(bounds="3 seeds, 1 or 2 steps")(seed_case)


def oracle_case(env, n, k):
    """the reward of a weighting is 3 for the hidden ranking itself, else the rank correlation with it"""
    o = op.OraclePVM(num_candidates=n, slate_size=n, num_weights=k, candidate_feat_dim=k)
    F = [[env.num(f"f{i}_{j}", 0, 1) for j in range(k)] for i in range(n)]
    feed, u = [list(r) for r in F], env.num("u", 0, 1)

    def rand(*shape):
        return arr(env, [u] if shape == (1,) and not feed_started else feed.pop(0))
    feed_started = []
    with env.patch(np.random, "rand", lambda *s: arr(env, [u]) if not feed_started and feed_started.append(1) is None else arr(env, feed.pop(0))):
        obs = o.reset()
    env.check(list(obs["doc"]) == [str(i) for i in range(n)], "documents in order")
    for i in range(n):
        env.eq(list(obs["doc"][str(i)]), F[i], "document features")
    a = [env.num(f"w{j}", -1, 1) for j in range(k)]
    truth, mine = [ssum(r) for r in F], [ssum(x * y for x, y in zip(r, a)) for r in F]
    for v in (truth, mine):
        for i in range(n):
            for j in range(i):
                env.assume(abs(v[i] - v[j]) >= 1 / 64)
    obs2, r, done, _ = o.step(arr(env, a))
    rank = lambda v: sorted(range(n), key=lambda i: sum(1 for j in range(n) if j != i and bool(v[j] > v[i])))
    A, M = rank(truth), rank(mine)
    pos = lambda order: [order.index(i) for i in range(n)]
    P, Q = pos(A), pos(M)
    c = sum((1 if (P[i] - P[j]) * (Q[i] - Q[j]) > 0 else -1) for i in range(n) for j in range(i))
    want = 3.0 if A == M else c / (n * (n - 1) / 2)
    env.close([float(r)], [want], "reward", 1e-6)
    env.check(bool(o.is_match(r)) == (A == M), "whether the hidden ranking was found")
    env.check(bool(done), "one step per episode")
    env.check(o.action_space.shape == (k,) and float(o.action_space.low.min()) == -1.0 and float(o.action_space.high.max()) == 1.0, "weights lie in [-1, 1]")
    env.refuses(lambda: o.step(arr(env, a + [0.5])), AssertionError)


for n, k, tier in [(3, 2, "quick"), (2, 3, "quick"), (4, 2, "thorough")]:
    suite.case(tier, bounds=f"{n} documents of {k} features, every weighting", n=n, k=k)(oracle_case)


def linear_case(env, T):
    """the state moves by A x + B u with the action clipped to its range; the reward is minus the quadratic cost; four steps per episode"""
    e = LinDynaEnv()
    with env.patch(np.random, "randint", lambda low, high=None, size=None: np.array([env.pick(f"s{i}", [low, high - 1]) for i in range(size[0])])):
        s = e.reset()
    env.check(len(s) == 3 and all(float(v) in (-1.0, 0.0, 1.0) for v in s), "starting state")
    x = [env.num(f"x{i}", -1, 1) for i in range(3)]
    e.state = arr(env, x)
    A = [[-.2, -.2, .2], [.4, 0, .4], [0, -.2, .4]]
    Bm = [[.4, .4], [.4, .4], [0, .2]]
    Q, R = [[.2, 0, 0], [0, .4, .1], [0, .1, .2]], [[.2, -.2], [-.2, .4]]
    quad = lambda m, v: ssum(v[i] * m[i][j] * v[j] for i in range(len(v)) for j in range(len(v)))
    for t in range(T):
        a = [env.num(f"a{t}_{i}", -5, 5) for i in range(2)]
        s, r, done, _ = e.step(arr(env, a))
        u = [smin(smax(v, -3), 3) for v in a]
        env.eq(r if env.sym else float(r), -(quad(Q, x) + quad(R, u)), "reward")
        x = [ssum(A[i][j] * x[j] for j in range(3)) + ssum(Bm[i][j] * u[j] for j in range(2)) for i in range(3)]
        env.eq(list(s), x, "next state")
        env.check(bool(done) == (t == 3), "four steps per episode")
    env.refuses(lambda: e.step(np.zeros(3)), AssertionError)


suite.case(bounds="4 steps, every action", T=4)(linear_case)


def masked_case(env, T):
    """one action is allowed at a time; it pays ten, every other nothing; the state only names the step"""
    e = PossibleActionsMaskTester()
    total = env.pick("total", [1, T, 20])
    e.max_steps = total
    k = [0]

    def randint(n, *a):
        k[0] += 1
        env.check(n == 4 and not a, "every action may come next")
        return env.pick(f"l{k[0]}", [0, 3])
    with env.patch(np.random, "randint", randint):
        obs = e.reset()
        for t in range(T):
            m = [bool(v) for v in e.possible_actions_mask]
            env.check(k[0] == t + 1, "a new action is drawn every step")
            env.check(sum(m) == 1 and len(m) == 4, "one action allowed")
            env.check([float(v) for v in obs] == [1.0 if i == t else 0.0 for i in range(total)], "state names the step")
            a = env.pick(f"a{t}", list(range(4)))
            obs, r, done, _ = e.step(a)
            env.check(r == (10.0 if m[a] else 0.0), "reward")
            env.check(bool(done) == (t == total - 1), "end of the episode")
            if done:
                env.check([float(v) for v in obs] == [0.0] * total, "no state after the end")
                break


suite.case(bounds="2 steps of episodes of 1, 2 or 20 steps", T=2)(masked_case)


def value_case(env, n=3, d=2):
    """every document of an observation carries its value for the user; user features handed out are not changed later"""
    u = [env.num(f"u{i}", -1, 1) for i in range(d)]
    D = [[env.num(f"d{k}_{i}", -1, 1) for i in range(d)] for k in range(n)]
    had = env.flag("augmented")
    which = env.flag("multi")
    user = arr(env, u)

    class Inner(gym.Env):
        observation_space = spaces.Dict({"user": spaces.Box(-1, 1, shape=(d,)), "doc": spaces.Dict({str(k): spaces.Box(-1, 1, shape=(d,)) for k in range(n)})})
        action_space = spaces.Discrete(2)
        t = 0

        def make(self):
            o = {"user": user, "doc": {str(k): arr(env, D[k]) for k in range(n)}}
            if had:
                o["augmentation"] = {"1": {"other": 5.0}}
            return o

        def reset(self, **kw):
            self.kw = kw
            return self.make()

        def step(self, a):
            self.a = a
            return self.make(), 2.5, True, {"x": 1}
    inner = Inner()
    r = RecSim.__new__(RecSim)
    gym.core.Wrapper.__init__(r, ValueWrapper(inner, multi_selection_value_fn if which else dot_value_fn))
    outs = [r.reset()]
    o, rew, done, info = r.step(1)
    env.check((rew, done, info, inner.a) == (2.5, True, {"x": 1}, 1), "the step is passed on")
    outs.append(o)
    user[0] = 77.0
    for o in outs:
        env.eq(list(o["user"]), u, "user features stay as handed out")
        env.check(list(o["doc"]) == [str(k) for k in range(n)], "documents")
        for k in range(n):
            v = ssum(a * b for a, b in zip(u, D[k]))
            env.eq(o["augmentation"][str(k)]["value"], (v + 1) / 2 if which else v, "value of the document")
        env.check(not had or o["augmentation"]["1"]["other"] == 5.0, "other columns stay")
    sp = r.env.observation_space
    env.check(sorted(sp.spaces) == ["augmentation", "doc", "user"] and sorted(sp["augmentation"].spaces) == [str(k) for k in range(n)], "declared columns")
    env.check(all("value" in sp["augmentation"][str(k)].spaces for k in range(n)), "declared value")


suite.case(bounds="3 documents of 2 features")(value_case)


def grid_case(env, w=2, h=3):
    """position and direction become one-hot vectors, a different one for every position and direction"""
    class Grid(gym.Env):
        width, height, agent_pos, agent_dir = w, h, (0, 0), 0
        observation_space = spaces.Box(0, 1, shape=(1,))
        action_space = spaces.Discrete(3)

        def reset(self):
            return None

        def step(self, a):
            return None, 1.5, False, {}
    g = Grid()
    s = SimpleObsWrapper(g)
    got = []
    for i in range(2):
        k = env.pick(f"at{i}", list(range(w * h * 4)))
        g.agent_pos, g.agent_dir = (k // 4 // h, k // 4 % h), k % 4
        o = s.reset() if i == 0 else s.step(0)[0]
        env.check(o.shape == s.observation_space.shape == (w * h * 4,), "size of the observation")
        env.check(sorted(float(v) for v in o) == [0.0] * (w * h * 4 - 1) + [1.0], "one-hot")
        got.append((k, list(o)))
    env.check((got[0][0] == got[1][0]) == (got[0][1] == got[1][1]), "different places look different")


suite.case(bounds="a grid of 2 x 3, every pair of places")(grid_case)


def box_obs_case(env, n=3):
    """observations of box spaces are served and trained on as they are"""
    g = Gym.__new__(Gym)
    x = [env.num(f"x{i}", -5, 5) for i in range(n)]
    shapes = {"flat": spaces.Box(-5, 5, shape=(n,)), "image": spaces.Box(-5, 5, shape=(1, n)), "list": spaces.Discrete(3)}
    kind = env.pick("kind", list(shapes))
    gym.core.Wrapper.__init__(g, types.SimpleNamespace(observation_space=shapes[kind], action_space=None, reward_range=None, metadata={}))
    a = arr(env, x) if kind == "flat" else arr(env, [x])
    if kind == "list":
        env.refuses(lambda: g.obs_preprocessor(a), NotImplementedError)
        env.refuses(lambda: g.serving_obs_preprocessor(a), NotImplementedError)
        return
    f = g.obs_preprocessor(a)
    env.eq(env.L(f.float_features), [x] if kind == "flat" else [[x]], "observation to learn from")
    if kind == "image":
        env.refuses(lambda: g.serving_obs_preprocessor(a), NotImplementedError)
        return
    v, p = g.serving_obs_preprocessor(a)
    env.eq(env.L(v), [x], "observation served")
    env.check(p.tolist() == [[1.0] * n], "all present")
    env.check(f.float_features.dtype == torch.float32 and v.dtype == torch.float32, "single precision")


suite.case(bounds="3 numbers")(box_obs_case)


def limit_case(env):
    """the step limit of an environment is found under either of its usual names"""
    names = env.pick("names", [(), ("_max_episode_steps",), ("max_steps",), ("_max_episode_steps", "max_steps")])
    e = types.SimpleNamespace(**{n: 10 + i for i, n in enumerate(names)}, observation_space=None, action_space=None, reward_range=None, metadata={})
    g = Gym.__new__(Gym)
    gym.core.Wrapper.__init__(g, e)
    env.check(g.max_steps == (10 if names else None), "step limit")
    env.check(g.possible_actions_mask is None, "no mask")
    e.possible_actions_mask = [1, 0]
    env.check(g.possible_actions_mask == [1, 0], "mask of the environment")


suite.case(bounds="4 environments")(limit_case)
