"""Sequential off-policy estimators over logged trajectories: importance sampling, direct method, doubly robust, MAGIC, DualDICE; and the policies they take."""
import random
import types
import numpy as np
from reagent.ope.estimators import sequential_estimators as seq
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace
from reagent.ope.utils import Clamper
from checks.common import *
from checks.D21 import dot, mean
from checks.D23 import ope_env, sequential_spec

suite = Suite("D26", ["logged and target probabilities are 0 where stated and at least 1/8 otherwise; rewards and values lie in [-8, 8]", "the discount is one of the listed numbers",
                      "MAGIC: resampled indices and the optimiser's steps come from listed tables", "DualDICE: networks are arbitrary functions, sampled actions and rows come from listed tables"])


class Policy(seq.RLPolicy):
    """a table of probabilities"""

    def __init__(self, table, a):
        super().__init__(ActionSpace(a))
        self.table = table

    def action_dist(self, state):
        return ActionDistribution(list(self.table[state.value]))


class Value(seq.ValueFunction):
    def __init__(self, v, q):
        self.v, self.q = v, q

    def state_value(self, state):
        return self.v[state.value]

    def state_action_value(self, state, action):
        return self.q[state.value][action.value]

    def reset(self):
        pass


def trajectories(env, lens, a, gaps, rmax=8, vmax=8, mus=None):
    """episodes of `lens` steps; gaps: some steps log no action, or one of zero probability"""
    T = types.SimpleNamespace(eps=[], log=[], pi={}, v={}, q={}, gt={})
    for i, n in enumerate(lens):
        ep, mdp = [], []
        for t in range(n):
            k = f"{i}_{t}"
            T.pi[k] = [env.num(f"pi{k}{j}", 0, 1) for j in range(a - 1)]
            T.pi[k].append(1 - ssum(T.pi[k]) if a > 1 else 1)
            env.assume(T.pi[k][-1] >= 0)
            T.v[k], T.gt[k] = env.num(f"v{k}", -vmax, vmax), env.num(f"gt{k}", -8, 8)
            T.q[k] = [env.num(f"q{k}{j}", -vmax, vmax) for j in range(a)]
            kind = env.pick(f"step{k}", ["logged", "no action", "zero probability"]) if gaps else "logged"
            act = None if kind == "no action" else (i + t) % a
            p = 0.0 if kind != "logged" else mus[i][t] if mus else env.num(f"mu{k}", 0.125, 1)
            r = env.num(f"r{k}", -rmax, rmax)
            s = types.SimpleNamespace(key=k, act=act, p=p, r=r, on=kind == "logged")
            ep.append(s)
            mdp.append(seq.Transition(last_state=seq.State(k), action=None if act is None else Action(act), action_prob=p, state=seq.State(k + "n"), reward=r))
        T.eps.append(ep)
        T.log.append(mdp)
    return T


def cumulative(T, lens):
    """cumulative ratios, zero where nothing usable is logged"""
    H = max(lens)
    out = []
    for ep in T.eps:
        c, row = 1, []
        for s in ep:
            if s.on:
                c = c * T.pi[s.key][s.act] / s.p
                row.append(c)
            else:
                row.append(0)
        out.append(row + [0] * (H - len(row)))
    return out


def base_is(env, got, T, gamma, truth):
    rewards = [ssum(gamma ** t * s.r for t, s in enumerate(ep)) for ep in T.eps]
    env.check(len(got.results) == 1, "one result")
    env.close([got.results[0].log_reward], [mean(rewards)], "logged score", 1e-3)
    env.close([got.results[0].ground_truth_reward], [mean(ssum(gamma ** t * T.gt[s.key] for t, s in enumerate(ep)) for ep in T.eps) if truth else 0], "ground truth", 1e-3)


def inputs(T, gamma, a, truth=True, value=True):
    return seq.RLEstimatorInput(gamma=gamma, log=T.log, target_policy=Policy(T.pi, a), value_function=Value(T.v, T.q) if value else None, ground_truth=Value(T.gt, T.q) if truth else None)


def ips_case(env, lens, a, gamma, weighted, clamped, gaps):
    T = trajectories(env, lens, a, gaps)
    n, H = len(lens), max(lens)
    lo, hi = (0.125, 0.75) if clamped else (None, None)
    rho = cumulative(T, lens)
    want = 0
    for t in range(H):
        col = [rho[i][t] for i in range(n)]
        some = any(t < len(ep) and ep[t].on for ep in T.eps)
        if weighted:
            if some:
                env.assume(ssum(col) >= 0.0625)
            tot = ssum(col) if some else n
        else:
            tot = sum(1 for ep in T.eps if t < len(ep) and ep[t].on) or n
        for i in range(n):
            w = col[i] / tot
            if clamped:
                w = clamp(w, lo, hi)
            want = want + gamma ** t * w * (T.eps[i][t].r if t < lens[i] else 0)
    with ope_env(env):
        est = seq.IPSEstimator(Clamper(lo, hi), weighted) if clamped else seq.IPSEstimator(weighted=weighted)
        got = est.evaluate(inputs(T, gamma, a, value=False))
    env.close([got.results[0].estimated_reward], [want], "importance-sampled value", 1e-2)
    base_is(env, got, T, gamma, True)


for wt in (False, True):
    suite.case(bounds="episodes of 1 and 2 steps, 2 actions", lens=[1, 2], a=2, gamma=0.5, weighted=wt, clamped=False, gaps=False)(ips_case)
    suite.case(bounds="episodes of 2 and 1 steps, 1 action, clamped", lens=[2, 1], a=1, gamma=0.5, weighted=wt, clamped=True, gaps=False)(ips_case)
    suite.case(bounds="episodes of 2 and 1 steps, 2 actions, any step without a usable log", lens=[2, 1], a=2, gamma=0.75, weighted=wt, clamped=False, gaps=True)(ips_case)
    suite.case(tier="thorough", bounds="episodes of 2, 1 and 3 steps, 2 actions", lens=[2, 1, 3], a=2, gamma=0.75, weighted=wt, clamped=False, gaps=False)(ips_case)
suite.case(bounds="one episode of 3 steps, 2 actions, any step without a usable log", lens=[3], a=2, gamma=1.0, weighted=False, clamped=False, gaps=True)(ips_case)


def default_case(env):
    """no weight of a step that no episode usably logged"""
    env.check(seq.IPSEstimator()._weighted is True, "self-normalised unless told otherwise")


suite.case(bounds="defaults")(default_case)


def dm_case(env, lens, a, gamma, truth):
    T = trajectories(env, lens, a, False)
    with ope_env(env):
        got = seq.DMEstimator().evaluate(inputs(T, gamma, a, truth))
    env.close([got.results[0].estimated_reward], [mean(ssum(gamma ** t * T.v[s.key] for t, s in enumerate(ep)) for ep in T.eps)], "direct value", 1e-3)
    base_is(env, got, T, gamma, truth)


suite.case(bounds="episodes of 1, 3 and 2 steps", lens=[1, 3, 2], a=1, gamma=0.5, truth=True)(dm_case)
suite.case(bounds="episodes of 2 and 2 steps", lens=[2, 2], a=1, gamma=1.0, truth=False)(dm_case)


def dr_case(env, lens, a, gamma, weighted):
    T = trajectories(env, lens, a, False)
    H, n = max(lens), len(lens)
    if weighted:
        rho = cumulative(T, lens)
        for t in range(H):
            env.assume(ssum(rho[i][t] for i in range(n)) >= 0.0625)
    mk = lambda f: [[f(s) for s in ep] for ep in T.eps]
    # the model's state value is given, not derived: fold it into a spec with values v
    rho = cumulative(T, lens)
    want = 0
    tot = [ssum(rho[i][t] for i in range(n)) if weighted else sum(1 for i in range(n) if t < lens[i]) for t in range(H)]
    for i in range(n):
        for t, s in enumerate(T.eps[i]):
            before = 1 / n if t == 0 else rho[i][t - 1] / tot[t - 1]
            want = want + gamma ** t * (rho[i][t] / tot[t] * (s.r - T.q[s.key][s.act]) + before * T.v[s.key])
    with ope_env(env):
        got = seq.DoublyRobustEstimator(weighted=weighted).evaluate(inputs(T, gamma, a))
    env.close([got.results[0].estimated_reward], [want], "doubly robust value", 1e-2)
    base_is(env, got, T, gamma, True)


for wt in (False, True):
    suite.case(bounds="episodes of 1 and 2 steps, 2 actions", lens=[1, 2], a=2, gamma=0.5, weighted=wt)(dr_case)
suite.case(bounds="one episode of 3 steps, 2 actions", lens=[3], a=2, gamma=0.75, weighted=False)(dr_case)
suite.case(tier="thorough", bounds="episodes of 2, 1 and 3 steps, 1 action", lens=[2, 1, 3], a=1, gamma=0.5, weighted=False)(dr_case)


class Stop:
    """the loss threshold: reached after the given number of optimiser steps"""

    def __init__(self, steps):
        self.left, self.losses = steps, []

    def __gt__(self, change):
        self.losses.append(change)
        self.left -= 1
        return self.left < 0


def magic_case(env, lens, gamma, table, steps, draws, mus=None):
    """a blend of partial returns; the blending weights are those the optimiser arrives at, and it descends variance plus squared bias"""
    n, H = len(lens), max(lens)
    T = trajectories(env, lens, 1, False, rmax=2, vmax=2, mus=mus)
    for ep in T.eps if not mus else []:
        for s in ep:
            env.assume(s.p >= 0.5)
    rho = cumulative(T, lens)
    tot = [ssum(rho[i][t] for i in range(n)) for t in range(H)]
    W = lambda i, t: rho[i][t] / tot[t]
    at = lambda i, t, f: f(T.eps[i][t]) if t < lens[i] else 0
    def term(i, t):
        s = T.eps[i][t]
        return W(i, t) * (s.r - T.q[s.key][0]) + (1 / n if t == 0 else W(i, t - 1)) * T.v[s.key]
    part = [[ssum(gamma ** t * term(i, t) for t in range(min(j + 1, lens[i]))) for j in range(H)] for i in range(n)]
    g = [[part[i][j] + gamma ** (j + 1) * W(i, j) * (at(i, j + 1, lambda s: T.v[s.key]) if j + 1 < lens[i] else 0) for j in range(H)] for i in range(n)]
    wdr = ssum(part[i][-1] for i in range(n))
    boot = []
    for d in draws:
        boot.append(ssum(part[i][-1] for i in d))
    grads = []
    pos = [list(r) for r in table]

    class SGD:
        def __init__(self, params, lr):
            self.p, = params
            env.check(lr == 0.25, "step size")

        def zero_grad(self):
            self.p.grad = None

        def step(self):
            grads.append((self.p.detach().clone(), self.p.grad.clone()))
            with torch.no_grad():
                self.p.copy_(torch.tensor([pos[len(grads) - 1]]).log())

    it = iter(draws)
    stop = Stop(steps)
    with ope_env(env), env.patch(random, "choices", lambda pop, k=1, **kw: list(next(it))), env.patch(torch.optim, "SGD", SGD):
        got = seq.MAGICEstimator().evaluate(inputs(T, gamma, 1), num_resamples=len(draws), loss_threshold=stop, lr=0.25)
    env.check(len(grads) == steps, "steps until the loss settles")
    final = pos[steps - 1] if steps else [1.0] * H
    x = [v / sum(final) for v in final]
    G = [ssum(g[i][j] for i in range(n)) for j in range(H)]
    env.close([got.results[0].estimated_reward], [dot(x, G)], "blend of partial returns", 1e-2)
    base_is(env, got, T, gamma, True)
    if not mus:
        return
    b = sorted_of(boot)
    k = len(draws)
    lo, hi = smin(wdr, b[int(round(0.05 * k))]), smax(wdr, b[int(round(0.95 * k)) - 1])
    B = [ite(v > hi, v - hi, ite(v < lo, v - lo, 0)) for v in G]
    mu = [mean(g[i][j] for i in range(n)) for j in range(H)]
    C = [[n / (n - 1) * ssum((g[i][j] - mu[j]) * (g[i][l] - mu[l]) for i in range(n)) + B[j] * B[l] for l in range(H)] for j in range(H)]
    # at equal weights the descent direction of the first step
    u = [1 / H] * H
    cu = [dot(C[j], u) for j in range(H)]
    m = dot(u, cu)
    env.close([stop.losses[0]], [abs(m)], "variance plus squared bias", 0.5)
    env.close(grads[0][1], [[2 * u[j] * (cu[j] - m) for j in range(H)]], "direction of descent", 0.5)


def sorted_of(xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = smin(a, b), smax(a, b)
    return xs


suite.case(bounds="2 episodes of 2 steps, 1 action, 2 resamples, 2 steps of descent", lens=[2, 2], gamma=0.5, table=[[1.0, 3.0], [5.0, 3.0]], steps=2, draws=[[0, 0], [0, 1]])(magic_case)
suite.case(bounds="2 episodes of 2 steps, 1 action, listed probabilities, 2 resamples, 2 steps of descent", lens=[2, 2], gamma=0.5, table=[[1.0, 3.0], [5.0, 3.0]], steps=2, draws=[[0, 0], [0, 1]], mus=[[1.0, 0.25], [0.5, 0.5]])(magic_case)
suite.case(bounds="2 episodes of 2 and 1 steps, 1 action, listed probabilities, 1 resample, 1 step of descent", lens=[2, 1], gamma=0.75, table=[[1.0, 3.0]], steps=1, draws=[[1, 1]], mus=[[1.0, 0.25], [0.5]])(magic_case)
suite.case(bounds="2 episodes of 1 and 3 steps, 1 action, no descent", lens=[1, 3], gamma=0.5, table=[], steps=0, draws=[[1, 0]])(magic_case)


class Dist:
    """a target distribution that draws the listed action"""

    def __init__(self, values, act):
        self.values, self.act = values, act

    def sample(self, size=1):
        return [Action(self.act)]


def dice_case(env, lens, a, gamma, deterministic, average, batches, every, degree=2.0):
    """each batch: density-ratio and value losses with their own optimizers; the estimate reweights the logged rewards"""
    eps, st, tgt = [], {}, {}
    vec = lambda k: tuple(env.num(f"{k}{d}", -2, 2) for d in range(2))
    for i, n in enumerate(lens):
        states = [vec(f"s{i}_{t}_") for t in range(n + 1)]
        for t, s in enumerate(states):
            tgt[i, t] = (env.real(f"pi{i}{t}", a, lo=0, hi=1), (i + 2 * t + 1) % a)
        eps.append([types.SimpleNamespace(i=i, t=t, s=states[t], s2=states[t + 1], a=(i + t) % a, r=env.num(f"r{i}{t}", -8, 8)) for t in range(n)])
        for t, s in enumerate(states):
            st[i, t] = s
    log = [[seq.Transition(last_state=seq.State(s.s), action=Action(s.a), action_prob=0.5, state=seq.State(s.s2), reward=s.r) for s in ep] for ep in eps]
    where = {id(v): k for k, v in st.items()}

    class Target(seq.RLPolicy):
        def action_dist(self, state):
            return Dist(*tgt[where[id(state.value)]])

    nets, opts, reports = [], [], []

    class Adam:
        def __init__(self, params, lr):
            self.params, self.lr, self.grads = list(params), lr, []
            opts.append(self)

        def zero_grad(self):
            for p in self.params:
                p.grad = None

        def step(self):
            self.grads.append(self.params[0].grad.clone())

    def linear(*args, **kw):
        nets.append(env.net("v", 1, bound=(-4, 4)) if not nets else env.net("zeta", 1, bound=(-4, 4)))
        return nets[-1]

    it = iter(batches)
    with ope_env(env), env.patch(seq, "LinearNet", linear), env.patch(torch.optim, "Adam", Adam), env.patch(np.random, "choice", lambda n, size: np.array(next(it))):
        dice = seq.NeuralDualDICE(state_dim=2, action_dim=a, deterministic_env=deterministic, average_next_v=average, polynomial_degree=degree, value_lr=0.25, zeta_lr=0.5, training_samples=len(batches),
                                  batch_size=len(batches[0]), loss_callback_fn=lambda z, v, me: reports.append((z, v, me)), reporting_frequency=every)
        gt = {}
        class Truth(Value):
            def state_value(self, state):
                k = where[id(state.value)]
                return gt.setdefault(k, env.num(f"gt{k[0]}{k[1]}", -8, 8))
        got = dice.evaluate(seq.RLEstimatorInput(gamma=gamma, log=log, target_policy=Target(ActionSpace(a)), ground_truth=Truth(None, None)))
    one = lambda j: [1 if k == j else 0 for k in range(a)]
    netf = lambda net, s, act: wrap(env.net_eval(net.name_, [unwrap(x) if env.sym else x for x in list(s) + one(act)], 1, -4, 4)[0])
    vnet, znet = dice.v_net, dice.zeta_net
    env.check(vnet is not znet, "two networks")
    V, Z = lambda s, act: netf(vnet, s, act), lambda s, act: netf(znet, s, act)
    flat = [s for ep in eps for s in ep]
    power = lambda x, d: abs(x) * abs(x) if d == 2 else abs(x) * abs(x) * abs(x) if d == 3 else None
    conj = degree / (degree - 1)
    zl, vl, zg, vg = [], [], [], []
    for rows in batches:
        num, vnum, gz, gv, tot = 0, 0, 0, 0, 0
        for k in rows:
            s = flat[k]
            w = gamma ** s.t
            nxt = tgt[s.i, s.t + 1]
            pi = env.L(nxt[0])
            nv = ssum(pi[j] * V(s.s2, j) for j in range(a)) if average else V(s.s2, nxt[1])
            share = ssum(pi) if average else 1
            d = V(s.s, s.a) - gamma * nv
            init = V(st[s.i, 0], tgt[s.i, 0][1])
            z = Z(s.s, s.a)
            num = num + w * (d * z - power(z, conj) / conj - (1 - gamma) * init)
            slope = z if conj == 2 else ite(z >= 0, 1, -1) * z * z
            gz = gz + w * (d - slope)
            if deterministic:
                vnum = vnum + w * (power(d, degree) / degree - (1 - gamma) * init)
                gv = gv + w * (d * (1 - gamma * share) - (1 - gamma))
            else:
                gv = gv + w * (z * (1 - gamma * share) - (1 - gamma))
            tot = tot + w
        zl.append(-num / tot)
        vl.append(vnum / tot if deterministic else num / tot)
        zg.append(-gz / tot)
        vg.append(gv / tot)
    by = {id(o.params[0]): o for o in opts}
    zo, vo = by[id(znet.theta)], by[id(vnet.theta)]
    env.check(len(opts) == 2 and (zo.lr, vo.lr) == (0.5, 0.25), "step sizes")
    env.check(len(zo.grads) == len(vo.grads) == len(batches), "one step of each optimizer for each batch")
    for k in range(len(batches)):
        env.close(zo.grads[k], [zg[k]], "gradient of the density ratio", 1e-2)
        env.close(vo.grads[k], [vg[k]], "gradient of the value", 1e-2)
    lo = 0
    want = [k for k in range(len(batches)) if k % every == 0]
    env.check(len(reports) == len(want) and all(r[2] is dice for r in reports), "reports at the given interval")
    for r, k in zip(reports, want):
        env.close([r[0]], [mean(zl[lo:k + 1])], "reported density-ratio loss", 1e-2)
        env.close([r[1]], [mean(vl[lo:k + 1])], "reported value loss", 1e-2)
        lo = k + 1
    env.check(len(got.results) == 1, "one result")
    env.close([got.results[0].estimated_reward], [mean(ssum(gamma ** s.t * s.r * Z(s.s, s.a) for s in ep) for ep in eps)], "reweighted return", 1e-2)
    env.close([got.results[0].log_reward], [mean(ssum(gamma ** s.t * s.r for s in ep) for ep in eps)], "logged score", 1e-3)
    env.close([got.results[0].ground_truth_reward], [mean(ssum(gamma ** s.t * gt[s.i, s.t] for s in ep) for ep in eps)], "ground truth", 1e-3)
    env.check(znet.training, "back in training mode")


for det in (True, False):
    for av in (True, False):
        suite.case(bounds="episodes of 2 and 1 steps, 2 actions, a batch of 2", lens=[2, 1], a=2, gamma=0.5, deterministic=det, average=av, batches=[[1, 2]], every=1)(dice_case)
suite.case(bounds="one episode of 3 steps, 2 actions, 3 batches of 2, reports every other batch", lens=[3], a=2, gamma=0.75, deterministic=True, average=False, batches=[[0, 2], [1, 1], [2, 1]], every=2)(dice_case)
suite.case(bounds="episodes of 1 and 1 steps, 2 actions, a batch of 2, power 1.5 with conjugate 3", lens=[1, 1], a=2, gamma=0.5, deterministic=False, average=False, batches=[[1, 0]], every=1, degree=1.5)(dice_case)


def policy_case(env, a, eps):
    table = {"s": [env.num(f"p{j}", 0, 1) for j in range(a - 1)]}
    table["s"].append(1 - ssum(table["s"]))
    env.assume(table["s"][-1] >= 0)
    class Fixed(Policy):
        """hands out the same distribution every time"""
        def action_dist(self, state):
            return self.__dict__.setdefault("dist", super().action_dist(state))
    base = Fixed(table, a)
    with ope_env(env):
        s = seq.State("s")
        pol = base
        want = list(table["s"])
        for e in eps:
            pol = seq.EpsilonGreedyRLPolicy(pol, e)
            want = [(1 - e) * p + e / a for p in want]
        d = pol(s)
        env.close([d[Action(j)] for j in range(a)], want, "epsilon-greedy mixture", 1e-5)
        env.close([base(s)[Action(j)] for j in range(a)], table["s"], "the wrapped policy is unchanged", 1e-5)
        u = seq.RandomRLPolicy(ActionSpace(a))(s)
        env.close([u[Action(j)] for j in range(a)], [1 / a] * a, "uniform policy", 1e-6)
        env.check(len(pol.action_space) == a, "action space")


suite.case(bounds="3 actions", a=3, eps=[0.25])(policy_case)
suite.case(bounds="2 actions, nested", a=2, eps=[0.5, 0.125])(policy_case)
suite.case(bounds="3 actions, never exploring", a=3, eps=[0.0])(policy_case)
