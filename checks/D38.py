"""Planning with learned world models: simulated returns, the cross-entropy search and random shooting."""
import random
import types
import numpy as np
import torch.nn as nn
from reagent.training.cem_trainer import CEMTrainer
from reagent.models import cem_planner
from reagent.models.cem_planner import CEMPlannerNetwork
from reagent.workflow.model_managers.model_based import cross_entropy_method as manager
from checks.common import *

suite = Suite("D38", ["the world models answer every call with arbitrary numbers: rewards in [-4, 4], next-state means in [-3, 3], deviations in [1/8, 2], mixture log-weights in [-3, 0], terminal logits in [-4, 4]",
                      "returns of different candidate plans differ by at least 1/64 where the order of candidates decides"])


class Model(nn.Module):
    """a world model that answers every call with new arbitrary numbers"""

    def __init__(self, env, log, who, S, M, once=None):
        super().__init__()
        self.env, self.log, self.who, self.S, self.M, self.fixed = env, log, who, S, M, once

    def forward(self, state, action):
        env, k, S, M = self.env, len(self.log), self.S, self.M
        env.shape(state.float_features, (1, 1, S), "one state, one step")
        r = types.SimpleNamespace(
            who=self.who, state=env.L(state.float_features)[0][0], action=env.L(action.float_features)[0][0],
            mus=env.real(f"mu{k}", 1, 1, M, S, lo=-3, hi=3), sigmas=env.real(f"sd{k}", 1, 1, M, S, lo=0.125, hi=2),
            logpi=env.real(f"pi{k}", 1, 1, M, lo=-3, hi=0), reward=env.real(f"rew{k}", 1, 1, lo=-4, hi=4),
            alive=env.real(f"nt{k}", 1, 1, lo=-4, hi=4))
        self.log.append(r)
        return rlt.MemoryNetworkOutput(mus=r.mus, sigmas=r.sigmas, logpi=r.logpi, reward=r.reward, not_terminal=r.alive, last_step_lstm_hidden=None, last_step_lstm_cell=None, all_steps_lstm_hidden=None)


class Sheet(np.ndarray):
    """an array of numbers of the harness"""

    def __setitem__(self, k, v):
        if isinstance(v, torch.Tensor) or (isinstance(v, np.ndarray) and v.ndim == 0):
            v = v.item()
        super().__setitem__(k, v)


def chance(env, log=None):
    """numpy's and python's random sources answer arbitrarily; arrays hold numbers of the harness"""
    import contextlib
    st = contextlib.ExitStack()
    env.nets_drawn = []

    def randint(a, b):
        env.nets_drawn.append(env.pick(f"net{len(env.nets_drawn)}", list(range(a, b))))
        return env.nets_drawn[-1]
    st.enter_context(env.patch(np.random, "randint", randint))
    if env.sym:
        zeros = np.zeros

        def sheet(shape, dtype=float, **k):
            if np.dtype(dtype).kind != "f":
                return zeros(shape, dtype, **k)
            a = np.empty(shape, object).view(Sheet)
            a.fill(np.float64(0))
            return a
        st.enter_context(env.patch(np, "zeros", sheet))
    return st


def planner(env, log, S=2, A=2, M=2, nets=2, **kw):
    a = dict(cem_num_iterations=1, cem_population_size=1, ensemble_population_size=1, num_elites=1, plan_horizon_length=2, state_dim=S, action_dim=A,
             discrete_action=True, terminal_effective=True, gamma=0.5)
    a.update(kw)
    return CEMPlannerNetwork(mem_net_list=[Model(env, log, i, S, M) for i in range(nets)], **a)


def one(x):
    while isinstance(x, (list, tuple)):
        x = x[0]
    return x


def rollouts(env, log, plans, init, ens, H, S, M, nets, gamma, effective, at=0, dr=(0, 0, 0), tr=0):
    """checks the calls of the world models for these plans and gives every plan's mean return"""
    mult, norm, bern = env.draws("multinomial"), env.draws("normal"), env.draws("bernoulli")
    pm, pb = env.params("multinomial"), env.params("bernoulli")
    im, inn, ib = dr
    returns, k = [], at
    for plan in plans:
        total = 0
        for e in range(ens):
            s, net = init, env.nets_drawn[tr]
            tr += 1
            for j in range(H):
                c = log[k]
                k += 1
                env.check(c.who == net, "one world model per trajectory")
                env.eq(c.state, s, "state the world model continues from")
                env.eq(c.action, plan[j], "action of the plan at this step")
                total = total + env.L(c.reward)[0][0] * gamma ** j
                mix = one(mult[im])
                proportional_to(env, pm[im], [sexp(x) for x in env.L(c.logpi)[0][0]])
                im += 1
                mu, sd = env.L(c.mus)[0][0], env.L(c.sigmas)[0][0]
                s = [pick_at([mu[m][i] for m in range(M)], mix) + pick_at([sd[m][i] for m in range(M)], mix) * norm[inn][i] for i in range(S)]
                inn += 1
                if effective:
                    env.eq(one(pb[ib]), ssigmoid(env.L(c.alive)[0][0]), "probability of going on")
                    stop = one(bern[ib]) == 0
                    ib += 1
                    if bool(stop):
                        break
        returns.append(total / ens)
    return returns, k, (im, inn, ib), tr


def proportional_to(env, got, want):
    got = got[0] if isinstance(got[0], (list, tuple)) else got
    a, b = ssum(got), ssum(want)
    env.check(len(got) == len(want), "one weight per mixture component")
    for x, y in zip(got, want):
        env.eq(x * b, y * a, "mixture weights")


def all_drawn(env, log, k, dr, tr, label="every call and draw accounted for"):
    env.check(k == len(log) and tr == len(env.nets_drawn) and [len(env.draws(n)) for n in ("multinomial", "normal", "bernoulli")] == list(dr), label)


def return_case(env, pop, ens, H, nets, effective, S=2, A=2, M=2):
    """a plan is worth the mean, over its simulated trajectories, of the discounted rewards up to and including the predicted end"""
    log, g = [], env.num("gamma", 0, 1)
    p = planner(env, log, S, A, M, nets, cem_population_size=pop, ensemble_population_size=ens, plan_horizon_length=H, terminal_effective=effective, gamma=g)
    s, plans = env.real("s", 1, S, lo=-3, hi=3), env.real("a", pop, H, A, lo=-2, hi=2)
    with chance(env):
        got = p.acc_rewards_of_all_solutions(feat(s), plans)
    want, k, dr, tr = rollouts(env, log, env.L(plans), env.L(s)[0], ens, H, S, M, nets, g, effective)
    env.check(len(got) == pop, "one return per plan")
    env.eq(list(got), want, "return of a plan")
    all_drawn(env, log, k, dr, tr)


for pop, ens, H, nets, eff, M, tier in [(1, 1, 2, 2, True, 3, "quick"), (2, 1, 2, 2, True, 1, "quick"), (1, 2, 2, 2, True, 1, "quick"), (1, 1, 3, 1, False, 2, "quick"), (2, 2, 2, 1, False, 1, "quick"), (1, 1, 4, 1, True, 1, "quick"),
                                        (11, 1, 1, 1, False, 1, "quick"), (2, 1, 2, 2, True, 2, "thorough"), (1, 2, 2, 2, True, 2, "thorough"), (1, 3, 3, 1, True, 1, "thorough"), (20, 1, 2, 1, False, 1, "thorough")]:
    suite.case(tier, bounds=f"{pop} plans x {ens} trajectories x {H} steps, {nets} world models of {M} mixture components, every discount", pop=pop, ens=ens, H=H, nets=nets, effective=eff, M=M)(return_case)


def shooting_case(env, pop, ens, H, A, effective=False):
    """random shooting: plans are drawn with equal chance from all action sequences; the first action with the best mean return over the plans that try it wins"""
    log, g, S = [], 0.5, 1
    p = planner(env, log, S, A, 1, 1, cem_population_size=pop, ensemble_population_size=ens, plan_horizon_length=H, terminal_effective=effective, gamma=g)
    s = env.real("s", 1, S, lo=-3, hi=3)
    drawn = []

    def choices(seqs, weights=None, cum_weights=None, k=1):
        seqs = [tuple(int(x) for x in q) for q in seqs]
        every = {()}
        for _ in range(H):
            every = {q + (a,) for q in every for a in range(A)}
        env.check(len(seqs) == len(every) and set(seqs) == every and weights is None and cum_weights is None, "every action sequence equally likely")
        env.check(k == pop, "number of plans")
        drawn.extend(env.pick(f"plan{i}", seqs) for i in range(k))
        return list(drawn)
    with chance(env), env.patch(random, "choices", choices):
        res = manager.CEMPolicy(p, True)
        best, onehot = p(feat(s))
    env.check(len(drawn) == pop, "plans come from the random source")
    plans = [[[1.0 if a == x else 0.0 for x in range(A)] for a in q] for q in drawn]
    R, k, dr, tr = rollouts(env, log, plans, env.L(s)[0], ens, H, S, 1, 1, g, effective)
    all_drawn(env, log, k, dr, tr)
    first = sorted({q[0] for q in drawn})
    avg = {a: mean([r for r, q in zip(R, drawn) if q[0] == a]) for a in first}
    best = int(best)
    env.check(best in avg, "the chosen action was tried")
    env.shape(onehot, (A,), "one-hot answer")
    env.eq(env.L(onehot), [1.0 if i == best else 0.0 for i in range(A)], "answer names the chosen action")
    for a in first:
        env.le(avg[a], avg[best], "no tried first action did better on average")


def mean(v):
    return ssum(v) / len(v)


for pop, ens, H, A, eff, tier in [(3, 1, 1, 2, False, "quick"), (3, 1, 2, 2, False, "quick"), (2, 2, 1, 3, False, "quick"), (2, 1, 2, 2, True, "quick"), (4, 1, 1, 3, False, "thorough"), (3, 1, 2, 3, False, "thorough")]:
    suite.case(tier, bounds=f"{pop} plans x {ens} trajectories x {H} steps, {A} actions", pop=pop, ens=ens, H=H, A=A, effective=eff)(shooting_case)


def search_case(env, iters, pop, elites, ens, H, A):
    """cross-entropy search: candidates spread around the current plan within the action bounds; the best ones move the plan and its spread; the first action answers, in the range agents use"""
    log, S, g = [], 1, 0.5
    alpha, eps = env.num("alpha", 0, 1), env.num("eps", 0.0, 1)
    lo = np.array([-1.0, 0.5][:A])
    hi = np.array([3.0, 1.0][:A])
    p = planner(env, log, S, A, 1, 1, cem_num_iterations=iters, cem_population_size=pop, num_elites=elites, ensemble_population_size=ens, plan_horizon_length=H, terminal_effective=False, gamma=g,
                discrete_action=False, alpha=alpha, epsilon=eps, action_upper_bounds=hi, action_lower_bounds=lo)
    s = env.real("s", 1, S, lo=-3, hi=3)
    noise, kinds = [], []

    class Sampler:
        def rvs(self, size):
            env.check(list(size) == [pop, A * H], "one draw per candidate and dimension")
            x = [[env.num(f"z{len(noise)}_{i}_{d}", -2, 2) for d in range(A * H)] for i in range(pop)]
            noise.append(x)
            return np.array(x, dtype=object if env.sym else float)

    def truncnorm(a, b, loc=0, scale=1):
        kinds.append((a, b, [float(v) for v in np.ravel(loc)], [float(v) for v in np.ravel(scale)]))
        return Sampler()
    with chance(env), env.patch(cem_planner.stats, "truncnorm", truncnorm):
        out = manager.CEMPolicy(p, False).act(feat(s))
    for a, b, loc, scale in kinds:
        env.check((a, b) == (-2, 2) and set(loc) == {0.0} and set(scale) == {1.0}, "standard normal cut at two deviations")
    D = A * H
    L, U = list(lo) * H, list(hi) * H
    m, v = [(a + b) / 2 for a, b in zip(L, U)], [(b - a) ** 2 / 16 for a, b in zip(L, U)]
    at, dr, tr = 0, (0, 0, 0), 0
    for i in range(iters):
        sd = [ssqrt(smin(smin(((m[d] - L[d]) / 2) ** 2, ((U[d] - m[d]) / 2) ** 2), v[d])) for d in range(D)]
        c = [[noise[i][n][d] * sd[d] + m[d] for d in range(D)] for n in range(pop)]
        R, at, dr, tr = rollouts(env, log, [[row[j * A:(j + 1) * A] for j in range(H)] for row in c], env.L(s)[0], ens, H, S, 1, 1, g, False, at, dr, tr)
        for x in range(pop):
            for y in range(x):
                env.assume(abs(R[x] - R[y]) >= 1 / 64)
        worse = [sum(1 for y in range(pop) if y != x and bool(R[y] < R[x])) for x in range(pop)]
        E = [c[x] for x in range(pop) if worse[x] >= pop - elites]
        nm = [mean([e[d] for e in E]) for d in range(D)]
        nv = [mean([(e[d] - nm[d]) * (e[d] - nm[d]) for e in E]) for d in range(D)]
        m = [alpha * a + (1 - alpha) * b for a, b in zip(m, nm)]
        v = [alpha * a + (1 - alpha) * b for a, b in zip(v, nv)]
        if bool(sand(*[x <= eps for x in v])):
            break
    env.check(len(noise) == i + 1, "the search goes on exactly until the spread is small enough or the iterations are used up")
    all_drawn(env, log, at, dr, tr)
    env.shape(out.action, (1, A), "one action")
    env.close(env.L(out.action)[0], [-1 + 2 * (m[d] - L[d]) / (U[d] - L[d]) for d in range(A)], "first action of the final plan, in the range (-1, 1)", 1e-4)
    env.eq(out.log_prob, 0.0, "a planner's action is certain")


for it, pop, el, ens, H, A, tier in [(1, 3, 2, 1, 1, 1, "quick"), (1, 2, 1, 1, 2, 2, "quick"), (1, 3, 2, 1, 1, 2, "thorough"), (2, 2, 1, 1, 1, 1, "quick"), (2, 2, 1, 1, 1, 2, "quick"), (2, 3, 2, 1, 1, 1, "thorough"), (1, 3, 2, 2, 2, 2, "thorough")]:
    suite.case(tier, bounds=f"{it} iterations of {pop} candidates, {el} elites, {ens} trajectories x {H} steps, {A} action dimensions with fixed bounds, every update rate and stopping threshold", iters=it, pop=pop, elites=el, ens=ens, H=H, A=A)(search_case)


def spread_case(env, n=3):
    """the spread of candidates never lets two deviations cross a bound"""
    L, w = [env.num(f"l{i}", -4, 4) for i in range(n)], [env.num(f"w{i}", 0, 4) for i in range(n)]
    f, v = [env.num(f"f{i}", 0, 1) for i in range(n)], [env.num(f"v{i}", 0, 4) for i in range(n)]
    arr = lambda x: np.array(x, dtype=object if env.sym else float)
    p = planner(env, [], discrete_action=False, A=n, action_upper_bounds=np.ones(n), action_lower_bounds=np.zeros(n), plan_horizon_length=1)
    U = [a + b for a, b in zip(L, w)]
    m = [a + b * c for a, b, c in zip(L, w, f)]
    p.action_lower_bounds, p.action_upper_bounds = arr(L), arr(U)
    got = list(p.constrained_variance(arr(m), arr(v)))
    for i in range(n):
        env.eq(got[i], smin(smin((m[i] - L[i]) * (m[i] - L[i]) / 4, (U[i] - m[i]) * (U[i] - m[i]) / 4), v[i]), "variance kept within the bounds")


suite.case(bounds="3 dimensions, every bound, mean and variance")(spread_case)


def policy_case(env, A=3):
    """the policy passes the planner's choice on as one row; unusable bounds are refused"""
    k = env.pick("k", list(range(A)))
    seen = []
    act = torch.zeros(A)
    act[k] = 1
    o = feat(env.real("s", 1, 2))
    out = manager.CEMPolicy(lambda x: seen.append(x) or (k, act), True).act(o)
    env.check(len(seen) == 1 and seen[0] is o, "the planner sees the observation")
    env.eq(env.L(out.action), [env.L(act)], "action")
    env.eq(out.log_prob, 0.0, "a planner's action is certain")
    bad = dict(discrete_action=False, A=2)
    env.refuses(lambda: planner(env, [], action_upper_bounds=None, action_lower_bounds=None, **bad), AssertionError)
    env.refuses(lambda: planner(env, [], action_upper_bounds=np.ones(3), action_lower_bounds=np.zeros(3), **bad), AssertionError)
    env.refuses(lambda: planner(env, [], action_upper_bounds=np.array([1.0, 0.0]), action_lower_bounds=np.array([0.0, 0.5]), **bad), AssertionError)
    p = planner(env, [])
    env.refuses(lambda: p(feat(torch.zeros(2, 2))), AssertionError)


suite.case(bounds="3 actions")(policy_case)


def trainer_case(env, n=3, steps=2):
    """every world model learns from every batch, once and in order"""
    told = []
    ts = [types.SimpleNamespace(train=lambda b, i=i: told.append((i, b))) for i in range(n)]
    from reagent.parameters import CEMTrainerParameters
    t = CEMTrainer(None, ts, CEMTrainerParameters())
    start = t.minibatch
    batches = [object() for _ in range(steps)]
    for b in batches:
        t.train(b)
    env.check(told == [(i, b) for b in batches for i in range(n)], "every world model trains on the whole batch")
    env.check(t.minibatch == start + steps, "batches are counted")


suite.case(bounds="3 world models, 2 batches")(trainer_case)
