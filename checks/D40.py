"""Partially observable worlds: string games, the pocman maze, and states embedded by a memory network."""
import types
import gym
import numpy as np
import torch.nn as nn
from gym import spaces
from reagent.gym.envs.pomdp import pocman as pm
from reagent.gym.envs.pomdp.state_embed_env import StateEmbedEnvironment
from reagent.gym.envs.pomdp.string_game import StringGameEnv
from reagent.gym.envs.pomdp.string_game_v1 import StringGameEnvV1
from checks.common import *

suite = Suite("D40", ["distances in the maze are straight-line distances; ghosts may break ties any way; the maze game runs one step past its limit",
                      "global seeding done by the environments is left out"])


def arr(env, x):
    return np.array(x, dtype=object if env.sym else np.float64)


def unseeded(env):
    import contextlib
    st = contextlib.ExitStack()
    st.enter_context(env.patch(np.random, "seed", lambda *a: None))
    st.enter_context(env.patch(torch, "manual_seed", lambda *a: None))
    return st


def string_case(env, T):
    """the reward of a step is decided by the last three characters: +5 for ABB, -5 for BBB, else nothing"""
    limit = env.pick("limit", [1, T, 6])
    with unseeded(env):
        e = StringGameEnv(max_steps=limit)
        for ep in range(2 if limit == 1 else 1):
            o = e.reset()
            env.check([float(v) for v in o] == [0.0, 0.0], "nothing seen at first")
            s = ""
            for t in range(T):
                a = env.pick(f"a{ep}_{t}", [0, 1])
                o, r, done, info = e.step(a)
                s += "AB"[a]
                env.check(float(r) == {"ABB": 5.0, "BBB": -5.0}.get(s[-3:], 0.0), "reward of the last three characters")
                env.check([float(v) for v in o] == [float(a == 0), float(a == 1)], "the action is what is seen next")
                env.check(bool(done) == (t + 1 >= limit), "step limit")
                env.check(info["reward_str"] == s[-3:], "string behind the reward")
                if done:
                    env.refuses(lambda: e.step(0), AssertionError)
                    break
        env.refuses(lambda: e.step(2), AssertionError)


suite.case(bounds="every sequence of 5 characters, 3 step limits", T=5)(string_case)
suite.case("thorough", bounds="every sequence of 8 characters, 3 step limits", T=8)(string_case)


def string1_case(env):
    """an episode survives a step with chance 0.5 after A and 0.9 after B, three steps at most; only its end pays: 5 for AAA, 4 for BA"""
    rolls = []

    def rand():
        rolls.append(env.num(f"u{len(rolls)}", 0, 0.9999))
        return rolls[-1]
    with unseeded(env), env.patch(np.random, "rand", rand):
        e = StringGameEnvV1()
        for ep in range(2):
            o = e.reset()
            env.check([float(v) for v in o] == [0.0, 0.0], "nothing seen at first")
            s = ""
            for t in range(3):
                n = len(rolls)
                a = env.pick(f"a{ep}_{t}", [0, 1])
                o, r, done, info = e.step(a)
                s += "AB"[a]
                if t == 2:
                    env.check(bool(done), "three steps at most")
                else:
                    env.check(len(rolls) == n + 1, "one roll per step")
                    env.check(rolls[n] < (0.5 if a == 0 else 0.1) if done else rolls[n] >= (0.5 if a == 0 else 0.1), "chance of ending here")
                env.check(float(r) == ({"AAA": 5.0, "BA": 4.0}.get(s, 0.0) if done else 0.0), "reward at the end")
                env.check([float(v) for v in o] == [float(a == 0), float(a == 1)], "the action is what is seen next")
                env.check(info["reward_str"] == s, "string behind the reward")
                if done:
                    env.refuses(lambda: e.step(0), AssertionError)
                    break


suite.case(bounds="2 episodes, every sequence of characters and rolls")(string1_case)

W, C, P, F = 0, 1, 2, 3
RING = [[F, C, P], [C, W, F], [C, F, C]]
LAST = [[C, F, C], [W, C, P]]
HALL = [[C, C, W, F], [P, W, C, C]]
MAZES = {"ring": RING, "last": LAST, "hall": HALL}
MOVES = {0: (-1, 0), 1: (0, 1), 2: (1, 0), 3: (0, -1)}


def world(env, maze, ghosts, agent, power=0, reach=3, dirs=None, steps=0, limit=200):
    e = pm.PocManEnv()
    e.board = dict(pm.MICRO, _maze=np.array(maze, dtype=np.int8), _ghost_range=reach, _ghost_home=ghosts[0], _poc_home=agent, _num_ghosts=len(ghosts), _max_step=limit)
    e.reset()
    s = e.internal_state
    s.agent_pos, s.power_duration, e.step_cnt = pm.Position(*agent), power, steps
    for k, (g, p) in enumerate(zip(s.ghosts, ghosts)):
        g.pos = pm.Position(*p)
        g.direction = dirs[k] if dirs else 0
    return e


def cells(maze):
    return [(i, j) for i, r in enumerate(maze) for j, v in enumerate(r) if v != W]


def go(maze, p, a):
    q = (p[0] + MOVES[a][0], p[1] + MOVES[a][1])
    return q if q in cells(maze) else p


def dist2(p, q):
    return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2


def sees(maze, p, g, a):
    if p == g:
        return True
    dx, dy = MOVES[a]
    q = p
    while True:
        q = (q[0] + dx, q[1] + dy)
        if not (0 <= q[0] < len(maze) and 0 <= q[1] < len(maze[0])) or maze[q[0]][q[1]] == W:
            return False
        if q == g:
            return True


def look(env, maze, p, ghosts, ob, space):
    """what the agent sees, feels, hears and smells"""
    ob = [float(v) for v in ob]
    for a in range(4):
        env.check(ob[a] == (1.0 if any(sees(maze, p, g, a) for g in ghosts) else -1.0), "ghost in sight in a direction")
        env.check(ob[4 + a] == (1.0 if go(maze, p, a) == p else 0.0), "wall in a direction")
    env.check(ob[8] == (1.0 if any(abs(p[0] - g[0]) + abs(p[1] - g[1]) <= 2 for g in ghosts) else 0.0), "ghost within hearing")
    env.check(ob[9] == (1.0 if any(maze[p[0] + i][p[1] + j] == F for i in (-1, 0, 1) for j in (-1, 0, 1) if 0 <= p[0] + i < len(maze) and 0 <= p[1] + j < len(maze[0])) else 0.0), "food within smell")
    env.check(len(ob) == 10 and all(l <= v <= h for v, l, h in zip(ob, space.low, space.high)), "observation lies in the declared space")


def maze_step_case(env, which, n, reach, steps):
    """one step of the maze game from any state: moves, ghosts, food, power, reward, end, observation"""
    maze = [list(r) for r in MAZES[which]]
    free = cells(maze)
    ghosts = [env.pick(f"g{k}", free if k == 0 else [free[0], free[-1]]) for k in range(n)]
    agent = env.pick("agent", free)
    power = env.pick("power", [0, 1, 5])
    dirs = [env.pick(f"d{k}", [0, 3]) if reach == 0 else 0 for k in range(n)]
    limit = 10
    asked, chosen = [], []

    def choice(xs):
        asked.append(sorted(xs))
        chosen.append(env.pick(f"c{len(asked)}", sorted(xs)))
        return chosen[-1]
    with env.patch(np.random, "randint", lambda a, b=None: 1), env.patch(np.random, "choice", choice):
        e = world(env, maze, ghosts, agent, power, reach, dirs, steps, limit)
        home = ghosts[0]
        a = env.pick("a", [0, 1, 2, 3])
        ob, r, done, info = e.step(a)
    s = e.internal_state
    p = go(maze, agent, a)
    env.check(tuple(s.agent_pos) == p, "the agent moves unless something is in the way")
    power = max(power - 1, 0)
    reward, over, want, hits, q = -1, False, [], 0, 0
    after = [tuple(g.pos) for g in s.ghosts]
    for k, g in enumerate(ghosts):
        if g == p:
            hit, to = True, [g]
        else:
            nb = [x for x in {go(maze, g, d) for d in range(4)} if x != g]
            if dist2(p, g) < reach ** 2:
                best = (max if power > 0 else min)(dist2(x, p) for x in nb)
                to = [x for x in nb if dist2(x, p) == best]
                if p in to and len(to) == 1:
                    hit = True
                else:
                    hit = False
            else:
                back = (dirs[k] + 2) % 4
                ds = [d for d in range(4) if go(maze, g, d) != g]
                if len(ds) > 1:
                    ds = [d for d in ds if d != back]
                env.check(asked[q] == ds, "a wandering ghost turns back only in a dead end")
                to = [go(maze, g, chosen[q])]
                q += 1
                hit = to == [p]
        want.append((to, hit))
    caught = sum(h for _, h in want)
    for k, (to, hit) in enumerate(want):
        if not hit:
            env.check(after[k] in to, "a ghost chases, flees or wanders one step")
        elif power > 0:
            env.check(after[k] == home, "a caught ghost goes home")
        else:
            env.check(after[k] == p, "a ghost that catches the agent stays on him")
    if caught:
        reward += 25 * caught if power > 0 else -100
        over = power == 0
    cell = maze[p[0]][p[1]]
    if cell in (F, P):
        reward += 10
        maze[p[0]][p[1]] = C
    if cell == P:
        power = e.board["_power_duration"]
    if cell == F and not any(v == F for row in maze for v in row):
        over = True
    if steps + 1 > limit:
        over = True
    env.check(float(r) == float(reward), "reward of the step")
    env.check(bool(done) == over, "end of the game")
    env.check(s.power_duration == power, "time the power lasts")
    env.check([[int(v) for v in row] for row in e.maze] == maze, "food and power are used up")
    look(env, maze, p, after, ob, e.observation_space)
    if done:
        env.refuses(lambda: e.step(0), AssertionError)
    with env.patch(np.random, "randint", lambda a, b=None: 1):
        e.reset()
    env.check([[int(v) for v in row] for row in e.maze] == [list(r) for r in MAZES[which]] and tuple(e.internal_state.agent_pos) == agent and all(tuple(g.pos) == home for g in e.internal_state.ghosts) and len(e.internal_state.ghosts) == n
              and e.internal_state.power_duration == 0 and e.step_cnt == 0 and e.done is False, "a new game starts over")


for which, n, reach, steps, tier in [("ring", 1, 3, 0, "quick"), ("last", 2, 3, 9, "quick"), ("hall", 1, 2, 10, "quick"), ("last", 1, 0, 0, "quick"), ("ring", 2, 3, 0, "thorough"), ("ring", 1, 0, 0, "quick"), ("hall", 2, 2, 0, "thorough")]:
    suite.case(tier, bounds=f"the {which} maze, {n} ghosts of reach {reach}, every place and move, three states of power", max_paths=8000, which=which, n=n, reach=reach, steps=steps)(maze_step_case)


def maze_move_case(env):
    """walls and borders stop a move whatever the rest of the maze holds"""
    H, L = 2, 3
    m = [[env.inum(f"m{i}_{j}", 0, 3) for j in range(L)] for i in range(H)]
    e = pm.PocManEnv()
    e.maze = np.array([[v for v in r] for r in m], dtype=object if env.sym else np.int64)
    p = env.pick("p", [(i, j) for i in range(H) for j in range(L)])
    a = env.pick("a", [0, 1, 2, 3])
    q = (p[0] + MOVES[a][0], p[1] + MOVES[a][1])
    got = tuple(e.next_pos(pm.Position(*p), a))
    if 0 <= q[0] < H and 0 <= q[1] < L:
        env.check(m[q[0]][q[1]] != 0 if got == q else sand(m[q[0]][q[1]] == 0, got == p), "passable cell entered, wall not")
    else:
        env.check(got == p, "the border is not crossed")
    env.check(pm.opposite_direction(pm.opposite_direction(a)) == a and tuple(x + y for x, y in zip(MOVES[a], MOVES[pm.opposite_direction(a)])) == (0, 0), "opposite direction")


suite.case(bounds="every maze of 2 x 3 cells, place and move")(maze_move_case)


class Memory(nn.Module):
    """a memory network with arbitrary hidden states"""

    def __init__(self, env, H):
        super().__init__()
        self.env, self.num_hiddens, self.calls = env, H, []
        self.mdnrnn = nn.Dropout(0.5)

    def forward(self, state, action):
        k, T = len(self.calls), state.float_features.shape[0]
        h = self.env.real(f"h{k}", T, 1, self.num_hiddens, lo=-1, hi=1)
        self.calls.append((self.env.L(state.float_features), self.env.L(action.float_features), self.env.L(h), self.mdnrnn.training))
        return types.SimpleNamespace(all_steps_lstm_hidden=h)


class Raw:
    """an environment whose observations and rewards are arbitrary"""

    def __init__(self, env, n, discrete):
        self.env, self.n, self.k, self.taken, self.obs, self.rews = env, n, 0, [], [], []
        self.observation_space = spaces.Box(-2, 2, shape=(n,))
        self.action_space = spaces.Discrete(3) if discrete else spaces.Box(-1, 1, shape=(2,))
        self.unwrapped = types.SimpleNamespace(spec="spec")
        self.colour = "blue"

    def make(self):
        self.obs.append([self.env.num(f"o{len(self.obs)}_{i}", -2, 2) for i in range(self.n)])
        return arr(self.env, self.obs[-1])

    def reset(self):
        return self.make()

    def seed(self, s):
        self.seeded = s

    def step(self, a):
        self.taken.append(a)
        self.rews.append(self.env.num(f"r{len(self.rews)}", -4, 4))
        return self.make(), self.rews[-1], self.env.flag(f"end{len(self.rews)}"), {"k": len(self.rews)}


def embed_case(env, T, n, H, window, discrete):
    """an embedded state is the memory of the last steps followed by the raw observation; a new episode starts with no memory"""
    raw, mem = Raw(env, n, discrete), Memory(env, H)
    mode = bool(env.flag("training"))
    mem.mdnrnn.train(mode)
    e = StateEmbedEnvironment(raw, mem, window, *((-3.0, 3.0) if discrete else ()))
    lim = 3.0 if discrete else 2.0
    env.check(e.observation_space.shape == (H + n,) and float(e.observation_space.low.min()) == -lim and float(e.observation_space.high.max()) == lim, "size and range of embedded states")
    env.check(e.action_space is raw.action_space and e.colour == "blue", "everything else is the environment's")
    e.seed(5)
    env.check(raw.seeded == 5, "seed passed on")
    A = 3 if discrete else 2
    hist, acts = [], []

    def judge(o):
        s, a, h, training = mem.calls[-1]
        past = hist[-window:]
        env.eq([r[0] for r in s], [x for x, _ in past] or [[0.0] * n], "states remembered")
        env.eq([r[0] for r in a], [y for _, y in past] or [[0.0] * A], "actions remembered")
        env.check(training is False, "the memory is not trained meanwhile")
        env.check(mem.mdnrnn.training == mode, "its mode is restored")
        env.eq(list(o), list(h[-1][0]) + raw.obs[-1], "memory, then observation")
    for ep in range(2):
        o = e.reset()
        hist = []
        judge(o)
        for t in range(T if ep == 0 else 1):
            if discrete:
                a = env.pick(f"a{ep}_{t}", [0, 2])
                row = [1.0 if i == a else 0.0 for i in range(3)]
            else:
                row = [env.num(f"a{ep}_{t}_{i}", -1, 1) for i in range(2)]
                a = arr(env, row)
            hist.append((raw.obs[-1], row))
            o, r, done, info = e.step(a)
            env.check(raw.taken[-1] is a, "action passed on")
            env.eq(r, raw.rews[-1], "reward passed on")
            env.check(info == {"k": len(raw.rews)}, "information passed on")
            judge(o)
    env.check(len(mem.calls) == len(raw.obs), "one embedding per observation")


for T, n, H, window, disc, tier in [(3, 2, 2, 2, True, "quick"), (2, 1, 1, 1, False, "quick"), (3, 2, 3, 5, False, "quick"), (5, 2, 2, 3, True, "thorough")]:
    suite.case(tier, bounds=f"{T} steps of observations of {n}, {H} hidden units, a memory of {window} steps", T=T, n=n, H=H, window=window, discrete=disc)(embed_case)
