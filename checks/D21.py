"""Counterfactual estimators over a logged evaluation page: direct method, importance sampling, doubly robust, sequential and weighted."""
import contextlib
import numpy as np
from reagent.evaluation import cpe, doubly_robust_estimator as dre, sequential_doubly_robust_estimator as sdr
from reagent.evaluation import weighted_sequential_doubly_robust_estimator as wsdr
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from checks.common import *
from checks.D19 import Float

suite = Suite("D21", ["logged propensities are at least 1/8; rewards, values and target propensities lie in [-8, 8] (propensities in [0, 1])",
                      "bootstrap standard errors are arbitrary numbers where the estimators use them; their own formula is a separate case"])


def page(env, n, a, mdp=None, any_mask=True):
    """an evaluation page with arbitrary contents; the logged action may also be none of the listed ones"""
    idx = env.ints("logged", n, lo=0, hi=a if any_mask else a - 1)
    mask = torch.nn.functional.one_hot(idx, a + 1).float()[:, :a]
    reward = env.real("reward", n, 1, lo=-8, hi=8)
    prop = env.real("logged_prob", n, 1, lo=0.125, hi=1)
    pi, r, q = env.real("target_prob", n, a, lo=0, hi=1), env.real("model_reward", n, a, lo=-8, hi=8), env.real("model_value", n, a, lo=-8, hi=8)
    rl = env.real("model_reward_logged", n, 1, lo=-8, hi=8)
    return EvaluationDataPage(mdp_id=mdp, sequence_number=None, logged_propensities=prop, logged_rewards=reward, action_mask=mask,
                              model_propensities=pi, model_rewards=r, model_rewards_for_logged_action=rl, model_values=q)


def lists(env, p):
    L = env.L
    f = lambda t: [x[0] for x in L(t)]
    return f(p.logged_rewards), f(p.logged_propensities), L(p.action_mask), L(p.model_propensities), L(p.model_rewards), f(p.model_rewards_for_logged_action), L(p.model_values)


def dot(a, b):
    return ssum(x * y for x, y in zip(a, b))


def mean(xs):
    xs = list(xs)
    return ssum(xs) / len(xs)


class Errs:
    """arbitrary standard errors, remembering what each was asked for"""

    def __init__(self, env):
        self.env, self.seen, self.out = env, [], []

    def __call__(self, data, sample_percent=0.25, num_samples=1000):
        self.seen.append((list(data) if isinstance(data, np.ndarray) else self.env.L(data), sample_percent, num_samples))
        self.out.append(self.env.num(f"stderr{len(self.out)}", 0, 8))
        return self.out[-1]


@contextlib.contextmanager
def errs(env, mod):
    e = Errs(env)
    with env.patch(mod, "bootstrapped_std_error_of_mean", e), env.patch(mod, "float", Float):
        yield e


def estimate_is(env, est, values, base, err, label):
    raw = mean(values)
    small = base < 1e-6
    env.close([est.raw], [raw], label, 1e-3)
    env.close([est.raw_std_error], [err], label + " error", 1e-3)
    env.close([est.normalized * base], [ite(small, 0, raw)], label + " over the logged score", 1e-3)
    env.check(implies(small, sand(est.normalized == 0, est.normalized_std_error == 0)), label + " is not normalised by a vanishing score")
    env.close([ite(small, 0, est.normalized_std_error * base)], [ite(small, 0, err)], label + " error over the logged score", 1e-3)


def bandit_case(env, n, a):
    p = page(env, n, a)
    rew, lp, mask, pi, r, rl, _ = lists(env, p)
    base = mean(rew)
    env.assume(sor(base <= -0.01, base >= 0.01, base == 0))
    hp = dre.DoublyRobustHP(bootstrap_sample_percent=0.5, bootstrap_num_samples=7)
    with errs(env, dre) as e:
        dm, ips, dr = dre.DoublyRobustEstimator().estimate(p, hp)
    w = [dot(pi[i], mask[i]) / lp[i] for i in range(n)]
    direct = [dot(pi[i], r[i]) for i in range(n)]
    weighted = [w[i] * rew[i] for i in range(n)]
    robust = [direct[i] + w[i] * (rew[i] - rl[i]) for i in range(n)]
    env.check(len(e.seen) == 3 and all(s[1:] == (0.5, 7) for s in e.seen), "bootstrap settings are passed on")
    for got, vals, (data, _, _), err, label in zip((dm, ips, dr), (direct, weighted, robust), e.seen, e.out, ("direct method", "inverse propensity", "doubly robust")):
        env.close(data, vals, label + " bootstrap samples", 1e-3)
        estimate_is(env, got, vals, base, err, label)


suite.case(bounds="2 samples, 2 actions", n=2, a=2)(bandit_case)
suite.case(bounds="3 samples, 3 actions", n=3, a=3)(bandit_case)
suite.case(tier="thorough", bounds="5 samples, 3 actions", n=5, a=3)(bandit_case)


def episodes(ids):
    out = [[0]]
    for i in range(1, len(ids)):
        if bool(ids[i] == ids[i - 1]):
            out[-1].append(i)
        else:
            out.append([i])
    return out


def sequential_case(env, n, a, gamma):
    ids = env.ints("mdp", n, 1, lo=0, hi=2)
    p = page(env, n, a, ids)
    rew, lp, mask, pi, _, _, q = lists(env, p)
    eps = episodes([r[0] for r in env.L(ids)])
    w = [dot(pi[i], mask[i]) / lp[i] for i in range(n)]
    dr, val = [], []
    for ep in eps:
        d = v = 0
        for j in reversed(ep):
            d = dot(pi[j], q[j]) + w[j] * (rew[j] + gamma * d - dot(q[j], mask[j]))
            v = rew[j] + gamma * v
        dr.append(d)
        val.append(v)
    base = mean(val)
    env.assume(sor(base <= -0.01, base >= 0.01, base == 0))
    with errs(env, sdr) as e:
        got = sdr.SequentialDoublyRobustEstimator(gamma).estimate(p)
    env.close(e.seen[0][0], dr, "one estimate for each episode", 1e-2)
    estimate_is(env, got, dr, base, e.out[0], "sequential doubly robust")


suite.case(bounds="3 steps, 2 actions, any split into episodes", n=3, a=2, gamma=0.5)(sequential_case)
suite.case(bounds="2 steps, 3 actions, any split into episodes", n=2, a=3, gamma=0.75)(sequential_case)
suite.case(tier="thorough", bounds="5 steps, 2 actions, any split into episodes", n=5, a=2, gamma=0.5)(sequential_case)


def trajectories(env, p, eps, a):
    """equal-length trajectories: missing steps take no action and earn nothing"""
    rew, lp, mask, pi, _, _, q = lists(env, p)
    T = max(len(e) for e in eps)
    pad = lambda xs, z: [[xs[e[t]] if t < len(e) else z for t in range(T)] for e in eps]
    return T, pad(mask, [0] * a), pad(rew, 0), pad(lp, 1), pad(pi, [0] * a), pad(q, [0] * a)


def cumulative(A, lp, pi, norm):
    n, T = len(A), len(A[0])
    w = []
    for i in range(n):
        c, row = 1, []
        for t in range(T):
            c = c * (dot(A[i][t], pi[i][t]) / lp[i][t])
            row.append(c)
        w.append(row)
    for t in range(T):
        tot = ssum(w[i][t] for i in range(n))
        for i in range(n):
            w[i][t] = (1 / n if bool(tot == 0) else w[i][t] / tot) if norm else w[i][t] / n
        # decided once a column
    return w


def step_returns(A, rew, pi, q, w, gamma, j):
    """reward and control variate up to step j, the model's value after it"""
    n, T = len(A), len(A[0])
    j = min(j, T - 1)
    out = []
    for i in range(n):
        v = 0
        for t in range(j + 1):
            before = 1 / n if t == 0 else w[i][t - 1]
            v = v + gamma ** t * (w[i][t] * (rew[i][t] - dot(q[i][t], A[i][t])) + before * dot(pi[i][t], q[i][t]))
        if j + 1 < T:
            v = v + gamma ** (j + 1) * (w[i][j] if j >= 0 else 1 / n) * dot(pi[i][j + 1], q[i][j + 1])
        out.append(v)
    return out


def columns_sum(w):
    return [ssum(r[t] for r in w) for t in range(len(w[0]))]


def ids_of(lens):
    return [[k] for k, n in enumerate(lens) for _ in range(n)]


def away(env, w):
    """column sums are zero or well away from it"""
    for t in columns_sum(w):
        env.assume(sor(t == 0, t >= 0.01))


def weighted_case(env, lens, a, gamma, norm):
    n = sum(lens)
    p = page(env, n, a, torch.tensor(ids_of(lens)))
    k, eps = 0, []
    for m in lens:
        eps.append(list(range(k, k + m)))
        k += m
    T, A, rew, lp, pi, q = trajectories(env, p, eps, a)
    if norm:
        away(env, cumulative(A, lp, pi, False))
    w = cumulative(A, lp, pi, norm)
    want = ssum(step_returns(A, rew, pi, q, w, gamma, T))
    base = mean(ssum(gamma ** t * x for t, x in enumerate(r)) for r in rew)
    env.assume(sor(base <= -0.01, base >= 0.01, base == 0))
    with env.patch(wsdr, "float", Float):
        got = wsdr.WeightedSequentialDoublyRobustEstimator(gamma).estimate(p, 1, norm)
    env.close([got.raw], [want], "infinite-horizon return", 1e-2)
    small = base < 1e-6
    env.close([got.normalized * base], [ite(small, 0, want)], "return over the logged score", 1e-2)
    env.check(implies(small, got.normalized == 0), "not normalised by a vanishing score")
    env.check(got.raw_std_error == 0, "a single return has no spread")


for nm in (True, False):
    suite.case(bounds="trajectories of 1 and 2 steps, 2 actions", lens=[1, 2], a=2, gamma=0.5, norm=nm)(weighted_case)
suite.case(bounds="trajectories of 2 and 1 steps, 1 action", lens=[2, 1], a=1, gamma=0.75, norm=True)(weighted_case)
suite.case(tier="thorough", bounds="trajectories of 2, 3 and 1 steps, 2 actions", lens=[2, 3, 1], a=2, gamma=0.5, norm=False)(weighted_case)


def equal_case(env, lens, a):
    n = sum(lens)
    p = page(env, n, a)
    eps, k = [], 0
    for m in lens:
        eps.append(list(range(k, k + m)))
        k += m
    T, A, rew, lp, pi, q = trajectories(env, p, eps, a)
    npy = lambda t: t.cpu().numpy()
    got = wsdr.WeightedSequentialDoublyRobustEstimator.transform_to_equal_length_trajectories(
        np.array(ids_of(lens)), npy(p.action_mask), npy(p.logged_rewards).flatten(), npy(p.logged_propensities).flatten(), npy(p.model_propensities), npy(p.model_values))
    flat = lambda x: [z for y in x for z in flat(y)] if isinstance(x, (list, np.ndarray)) else [x]
    for g, w, label in zip(got, (A, rew, lp, pi, q), ("actions", "rewards", "logged probabilities", "target probabilities", "values")):
        env.check(tuple(g.shape[:2]) == (len(lens), T), "equal lengths")
        env.eq(flat(g), flat(w), label + " in their trajectory, padded")


suite.case(bounds="trajectories of 1, 3 and 2 steps, 2 actions", lens=[1, 3, 2], a=2)(equal_case)
suite.case(bounds="trajectories of 2 and 2 steps, 1 action", lens=[2, 2], a=1)(equal_case)


def bounds_case(env):
    x = [env.num(f"x{i}", -8, 8) for i in range(3)]
    se = env.num("se", 0, 4)
    seen = []
    with env.patch(wsdr.sp.stats, "sem", lambda v: (seen.append(list(v)), se)[1]), env.patch(wsdr.sp.stats.t, "_ppf", lambda c, d: (seen.append((c, d)), 2.0)[1]):
        lo, hi = wsdr.WeightedSequentialDoublyRobustEstimator.confidence_bounds(np.array(x, dtype=object if env.sym else float), 0.9)
    env.close([lo, hi], [mean(x) - 2 * se, mean(x) + 2 * se], "Student interval around the mean", 1e-4)
    env.eq(seen[0], x, "spread of the sample")
    env.check(abs(seen[1][0] - 0.95) < 1e-9 and seen[1][1] == 2, "two-sided level and degrees of freedom")


suite.case(bounds="3 values")(bounds_case)


def covariance(rows):
    n = len(rows[0])
    m = [mean(r) for r in rows]
    return [[dot([x - m[i] for x in rows[i]], [y - m[j] for y in rows[j]]) / (n - 1) for j in range(len(rows))] for i in range(len(rows))]


def blend_case(env, k, n):
    """the combination minimises variance plus squared bias over the simplex"""
    rows = [[env.num(f"r{i}{t}", -4, 4) for t in range(n)] for i in range(k)]
    dt = object if env.sym else float
    lo = env.num("lo", -4, 4)
    hi = lo + env.num("wide", 0, 4)
    x = [env.num(f"x{i}", 0, 1) for i in range(k)]
    tot = [ssum(r) for r in rows]
    seen = {}
    def minimize(fun, x0, args, constraints, bounds):
        import types
        seen.update(fun=fun, x0=x0, args=args, con=constraints, bounds=bounds)
        return types.SimpleNamespace(x=np.array(x, dtype=dt))
    E = wsdr.WeightedSequentialDoublyRobustEstimator
    zeros = np.zeros
    with env.patch(wsdr.sp.optimize, "minimize", minimize), env.patch(E, "confidence_bounds", staticmethod(lambda v, c: (lo, hi))), env.patch(wsdr, "float", Float), env.patch(np, "cov", cov), \
            env.patch(wsdr.np, "zeros", lambda s: zeros(s, dt)):
        got = E(0.5).compute_weighted_doubly_robust_point_estimate([0] * k, k, np.array(tot, dtype=dt), [0.0], np.array(rows, dtype=dt))
    env.close([got], [dot(x, tot)], "weighted sum of the returns", 1e-3)
    bias = [ite(t < lo, lo - t, ite(t > hi, t - hi, 0)) for t in tot]
    C = covariance(rows)
    env.check(list(seen["bounds"]) == [(0, 1)] * k, "weights between zero and one")
    y = np.array([env.num(f"y{i}", 0, 1) for i in range(k)], dtype=dt)
    env.close([seen["con"]["fun"](y)], [ssum(y) - 1], "weights sum to one", 1e-5)
    want = ssum(y[i] * y[j] * (C[i][j] + bias[i] * bias[j]) for i in range(k) for j in range(k))
    env.close([seen["fun"](y, seen["args"])], [want], "variance plus squared bias", 1e-2)


def cov(x):
    """numpy's covariance, for arrays of symbolic numbers"""
    x = np.asarray(x)
    if x.dtype != object:
        return COV(x)
    m = np.array(covariance([list(r) for r in (x if x.ndim == 2 else [x])]), dtype=object)
    return m if x.ndim == 2 and len(x) > 1 else m.reshape(())


COV = np.cov
suite.case(bounds="2 returns over 2 trajectories", k=2, n=2)(blend_case)
suite.case(bounds="3 returns over 2 trajectories", k=3, n=2)(blend_case)


def magic_case(env, lens, gamma, steps, norm):
    """the point estimate sees every horizon's return and the spread over subsets"""
    n, a = sum(lens), 2
    p = page(env, n, a, torch.tensor(ids_of(lens)))
    eps, k = [], 0
    for m in lens:
        eps.append(list(range(k, k + m)))
        k += m
    T, A, rew, lp, pi, q = trajectories(env, p, eps, a)
    E = wsdr.WeightedSequentialDoublyRobustEstimator
    calls = []
    def point(self, **kw):
        calls.append(kw)
        kw["out"] = env.num(f"point{len(calls)}", -8, 8)
        return kw["out"]
    def positional(self, *args, **kw):
        return point(self, **dict(zip(("j_steps", "num_j_steps", "j_step_returns", "infinite_step_returns", "j_step_return_trajectories"), args)), **kw)
    base = mean(ssum(gamma ** t * x for t, x in enumerate(r)) for r in rew)
    env.assume(base >= 0.01)
    picks = []
    def choice(m, size, replace=True):
        picks.append((m, size, replace))
        return np.array([(len(picks) + 1) % m])
    with env.patch(E, "compute_weighted_doubly_robust_point_estimate", positional), env.patch(E, "NUM_BOOTSTRAP_SAMPLES", 2), env.patch(np.random, "choice", choice):
        got = E(gamma).estimate(p, steps, norm)
    w = cumulative(A, lp, pi, norm)
    js = [float("inf"), -1] + [i * (T // (steps - 1)) for i in range(1, steps - 1)]
    first = calls[0]
    env.check(first["j_steps"] == js[:steps] and first["num_j_steps"] == steps, "horizons")
    want = [step_returns(A, rew, pi, q, w, gamma, int(min(j, T))) for j in js]
    for g, v in zip(first["j_step_return_trajectories"], want):
        env.close(list(g), v, "return of each trajectory at each horizon", 1e-2)
    env.close(list(first["j_step_returns"]), [ssum(v) for v in want], "return at each horizon", 1e-2)
    half = len(lens) // 2
    subs = []
    for s in range(half):
        ix = list(range(int(s * len(lens) / half), int((s + 1) * len(lens) / half)))
        g = lambda xs: [xs[i] for i in ix]
        ws = cumulative(g(A), g(lp), g(pi), norm)
        subs.append(ssum(step_returns(g(A), g(rew), g(pi), g(q), ws, gamma, T)))
    env.close(list(first["infinite_step_returns"]), subs, "return of each subset", 1e-2)
    env.eq(got.raw, first["out"], "point estimate")
    for c, (m, size, replace) in zip(calls[1:], picks):
        env.check(m == steps and size == int(0.5 * half) and replace is False and c["num_j_steps"] == size, "bootstrap draws horizons without repetition")


suite.case(bounds="4 trajectories of 1, 1, 2, 1 steps, 3 horizons", lens=[1, 1, 2, 1], gamma=0.5, steps=3, norm=False)(magic_case)


def bootstrap_case(env, n, pct, k, kind):
    """spread of the means of samples drawn with replacement"""
    d = [env.num(f"d{i}", -8, 8) for i in range(n)]
    size = int(pct * n)
    picks = [[env.pick(f"p{i}{j}", list(range(n))) for j in range(size)] for i in range(k)]
    calls = []
    def choice(data, size=None, replace=None):
        calls.append((len(data), size, replace))
        return np.array([data[i] for i in picks[len(calls) - 1]], dtype=data.dtype)
    data = env.mk([unwrap(x) for x in d]) if kind == "tensor" else np.array(d, dtype=object if env.sym else float)
    with env.patch(np.random, "choice", choice):
        got = cpe.bootstrapped_std_error_of_mean(data, pct, k)
    env.check(calls == [(n, size, True)] * k, "draws")
    ms = [mean(d[i] for i in p) for p in picks]
    mm = mean(ms)
    env.close([got * got], [mean((x - mm) * (x - mm) for x in ms)], "variance of the bootstrapped means", 1e-2)
    env.le(0, got, "a spread")


suite.case(bounds="3 numbers, 2 samples of 2", n=3, pct=0.7, k=2, kind="array")(bootstrap_case)
suite.case(bounds="4 numbers, 3 samples of 1", n=4, pct=0.25, k=3, kind="tensor")(bootstrap_case)
