"""Contextual-bandit estimators: direct method, inverse propensity, doubly robust, switch."""
import types
import numpy as np
from reagent.ope.estimators import contextual_bandits_estimators as cb
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace, PredictResults
from reagent.ope.utils import Clamper
from checks.common import *
from checks.D21 import dot, mean
from checks.D23 import ope_env

suite = Suite("D25", ["logged propensities are 0 or at least 1/8; rewards and predictions lie in [-8, 8]", "the reward model is arbitrary, refitted for each training set",
                      "switch: propensities come from listed tables, rewards and predictions are arbitrary"])


def samples(env, n, a, actions, outputs=True, features=0, tables=None, truth=False, mu_any=False):
    out = []
    for i in range(n):
        if tables:
            mu, pi = tables[i]
        else:
            mu = [env.num(f"mu{i}{j}", 0, 1) for j in range(a)]
            pi = [env.num(f"pi{i}{j}", 0, 1) for j in range(a)]
            for m in mu:
                env.assume(sor(m == 0, m >= 0.125) if mu_any else m >= 0.125)
        r = env.num(f"r{i}", -8, 8)
        rh = [env.num(f"rh{i}{j}", -8, 8) for j in range(a)]
        rl = env.num(f"rl{i}", -8, 8)
        gt = env.num(f"gt{i}", -8, 8) if truth else float("nan")
        x = env.real(f"x{i}", features, lo=-4, hi=4) if features else None
        out.append(types.SimpleNamespace(mu=mu, pi=pi, r=r, rh=rh, rl=rl, gt=gt, x=x, act=actions[i], sample=cb.LogSample(
            context=None, log_action=Action(actions[i]), log_reward=r, log_action_probabilities=ActionDistribution(list(mu)), tgt_action_probabilities=ActionDistribution(list(pi)),
            tgt_action=Action(actions[i]), model_outputs=cb.ModelOutputs(rl, list(rh)) if outputs else None, ground_truth_reward=gt, item_feature=x)))
    return out


def weight(s, lo=None, hi=None):
    if s.act is None:
        return 0
    m, p = s.mu[s.act], s.pi[s.act]
    w = ite(m < 1e-6, 0, p / ite(m < 1e-6, 1, m))
    return w if lo is None else clamp(w, lo, hi)


def result_is(env, e, got, vals, ss, label, est=None):
    n = len(ss)
    base, raw = mean(s.r for s in ss), mean(vals)
    small = base < 1e-6
    env.close([got.log_reward], [base], "logged score", 1e-4)
    env.close([got.estimated_reward], [raw if est is None else est], label, 1e-2)
    env.close([got.estimated_reward_normalized * base], [ite(small, 0, raw)], label + " over the logged score", 1e-2)
    env.check(implies(small, sand(got.estimated_reward_normalized == 0, got.estimated_reward_normalized_std_error == 0)), label + " is not normalised by a vanishing score")
    env.close(e.seen[-1][0], vals, label + " bootstrap samples", 1e-2)
    err = e.out[-1]
    env.close([got.estimated_reward_std_error], [err], label + " error", 1e-4)
    env.close([got.estimated_reward_normalized_std_error * base], [ite(small, 0, err)], label + " error over the logged score", 1e-3)
    if ss[0].gt == ss[0].gt:
        env.close([got.ground_truth_reward], [mean(s.gt for s in ss)], "ground truth", 1e-4)
    env.check(got.estimated_weight == n, "number of samples")


def base_apart(env, ss):
    base = mean(s.r for s in ss)
    env.assume(sor(base <= -0.01, base >= 0.01, base == 0))


def actions_of(env, n, a):
    return [env.pick(f"logged{i}", list(range(a)) + [None]) for i in range(n)]


def ips_case(env, n, a, clamped, weighted):
    ss = samples(env, n, a, actions_of(env, n, a), truth=True, mu_any=True)
    base_apart(env, ss)
    lo, hi = (0.25, 2.0) if clamped else (None, None)
    w = [weight(s, lo, hi) if s.act is not None else 0 for s in ss]
    if weighted:
        env.assume(ssum(w) >= 0.125)
    with ope_env(env) as e:
        est = cb.IPSEstimator(Clamper(lo, hi), weighted) if clamped else cb.IPSEstimator(weighted=weighted)
        got = est.evaluate(cb.BanditsEstimatorInput(ActionSpace(a), [s.sample for s in ss], True))
    vals = [x * s.r for x, s in zip(w, ss)]
    if weighted:
        env.close([got.estimated_reward * ssum(w)], [ssum(vals)], "self-normalised estimate", 1e-2)
    result_is(env, e, got, vals, ss, "inverse propensity", got.estimated_reward if weighted else None)


for cl in (False, True):
    for wt in (False, True):
        suite.case(bounds="2 samples, 2 actions, any or no logged action", n=2, a=2, clamped=cl, weighted=wt)(ips_case)


def outputs_case(env, n, a, kind, clamped):
    ss = samples(env, n, a, actions_of(env, n, a), truth=True, mu_any=True)
    base_apart(env, ss)
    lo, hi = (0.25, 2.0) if clamped else (None, None)
    with ope_env(env) as e:
        if kind == "dm":
            est = cb.DMEstimator()
        else:
            est = cb.DoublyRobustEstimator(weight_clamper=Clamper(lo, hi) if clamped else None)
        got = est.evaluate(cb.BanditsEstimatorInput(ActionSpace(a), [s.sample for s in ss], True))
    vals = [dot(s.pi, s.rh) + (0 if kind == "dm" or s.act is None else weight(s, lo, hi) * (s.r - s.rl)) for s in ss]
    result_is(env, e, got, vals, ss, kind)


suite.case(bounds="2 samples, 3 actions, given predictions", n=2, a=3, kind="dm", clamped=False)(outputs_case)
for cl in (False, True):
    suite.case(bounds="2 samples, 2 actions, given predictions", n=2, a=2, kind="dr", clamped=cl)(outputs_case)


class Model:
    """a regression model: an arbitrary function for each training set"""
    name = "model"

    def __init__(self, env):
        self.env, self.fits = env, []

    is_trained = property(lambda self: bool(self.fits))

    def train(self, data):
        self.fits.append(data)

    def value(self, row, k=None):
        return wrap(self.env.net_eval(f"fit{(len(self.fits) if k is None else k)}", [unwrap(x) if self.env.sym else x for x in row], 1, -8, 8)[0])

    def predict(self, x, device=None):
        return PredictResults(None, self.env.mk([unwrap(self.value(r)) for r in self.env.rows(x)]).float())


def fold_case(env, n, a, kind, order):
    """each half is judged by a model fitted to the other half"""
    acts = [env.pick(f"logged{i}", list(range(a))) for i in range(n)]
    ss = samples(env, n, a, acts, outputs=False, features=1, truth=True)
    base_apart(env, ss)
    def shuffle(xs):
        xs[:] = [xs[i] for i in order]
    m = Model(env)
    with ope_env(env) as e, env.patch(np.random, "shuffle", shuffle):
        est = cb.DMEstimator(m) if kind == "dm" else cb.DoublyRobustEstimator(m)
        got = est.evaluate(cb.BanditsEstimatorInput(ActionSpace(a), [s.sample for s in ss], False))
        total = len(m.fits)
        mixed = [ss[i] for i in order]
        h = n // 2
        halves = [(mixed[:h], mixed[h:]), (mixed[h:], mixed[:h])]
        env.check(total == 2, "one fit for each half")
        means, errs = [], []
        for k, (train, test) in enumerate(halves):
            cut = int(len(train) * 0.8)
            tr, va = train[:cut], train[cut:] or train[:cut]
            d = m.fits[k]
            rows = lambda s: [s.act, env.L(s.x)[0]]
            env.eq(d.train_x, [rows(s) for s in tr], "features fitted")
            env.eq(d.train_y, [s.r for s in tr], "rewards fitted")
            env.eq(d.validation_x, [rows(s) for s in va], "features held out")
            env.eq(d.validation_y, [s.r for s in va], "rewards held out")
            vals = []
            for s in test:
                p = [m.value([j, env.L(s.x)[0]], k + 1) for j in range(a)]
                v = dot(p, s.pi)
                if kind == "dr":
                    v = v + weight(s) * (s.r - p[s.act])
                vals.append(v)
            env.close(e.seen[k][0], vals, "value of each sample under the other half's model", 1e-2)
            means.append(mean(vals))
    env.close([got.estimated_reward], [mean(means)], "average of the halves", 1e-2)
    env.close([got.log_reward], [mean(s.r for s in ss)], "logged score", 1e-4)
    env.close([got.ground_truth_reward], [mean(s.gt for s in ss)], "ground truth", 1e-4)
    env.close([got.estimated_reward_std_error], [mean(e.out)], "error", 1e-3)


suite.case(bounds="4 samples, 2 actions", n=4, a=2, kind="dm", order=[2, 0, 3, 1])(fold_case)
suite.case(bounds="4 samples, 2 actions", n=4, a=2, kind="dr", order=[1, 3, 0, 2])(fold_case)
suite.case(bounds="5 samples, 1 action", n=5, a=1, kind="dr", order=[4, 0, 3, 1, 2])(fold_case)


def no_model_case(env, n, a):
    """with no reward model the doubly robust estimate is the propensity estimate, and the direct method has none"""
    ss = samples(env, n, a, [env.pick(f"logged{i}", list(range(a))) for i in range(n)], outputs=False, features=1)
    base_apart(env, ss)
    inp = cb.BanditsEstimatorInput(ActionSpace(a), [s.sample for s in ss], False)
    with ope_env(env) as e, env.patch(np.random, "shuffle", lambda xs: None):
        env.check(cb.DMEstimator().evaluate(inp) is None, "no model, no direct estimate")
        got = cb.DoublyRobustEstimator().evaluate(inp)
    h = n // 2
    v = [weight(s) * s.r for s in ss]
    env.close([got.estimated_reward], [(mean(v[h:]) + mean(v[:h])) / 2], "weighted rewards only", 1e-2)


suite.case(bounds="2 samples, 2 actions", n=2, a=2)(no_model_case)

T1 = [([0.5, 0.5], [0.25, 0.75]), ([0.25, 0.75], [0.75, 0.25])]
T2 = [([0.5, 0.25, 0.25], [0.25, 0.25, 0.5]), ([0.25, 0.5, 0.25], [0.75, 0.0, 0.25])]
T3 = [([0.0, 0.5, 0.5], [0.5, 0.25, 0.25]), ([0.125, 0.375, 0.5], [0.5, 0.375, 0.125])]


def switch_case(env, tables, dr, k, base, rmax):
    n, a = len(tables), len(tables[0][0])
    acts = [env.pick(f"logged{i}", list(range(a))) for i in range(n)]
    ss = samples(env, n, a, acts, tables=tables)
    base_apart(env, ss)
    for s in ss:
        env.assume(s.r >= 0)
    W = [[0.0 if m < 1e-6 else p / m for m, p in zip(s.mu, s.pi)] for s in ss]
    flat = [w for r in W for w in r]
    lo, hi = min(flat), max(flat)
    cands = [lo + (base ** x / base ** (k - 1)) * (hi - lo) for x in range(k)]
    top = rmax
    if rmax is None:
        for s in ss:
            for v in [s.r] + s.rh:
                top = v if top is None else smax(top, v)
    def values(tau):
        out = []
        for s, w in zip(ss, W):
            ips = w[s.act]
            model = lambda keep: ssum(p * v for p, v, x in zip(s.pi, s.rh, w) if keep(x))
            if dr:
                out.append((ips * (s.r - s.rl) if ips <= tau else 0) + model(lambda x: True))
            else:
                out.append((ips * s.r if ips <= tau else 0) + model(lambda x: x > tau))
        return out
    def loss(tau):
        v = values(tau)
        m = mean(v)
        bias = mean(ssum(p * top for p, x in zip(s.pi, w) if x > tau) for s, w in zip(ss, W))
        return ssum((x - m) * (x - m) for x in v) / (n * n) + bias * bias
    ls = [loss(c) for c in cands]
    for i in range(k):
        for j in range(i):
            if cands[i] != cands[j]:
                env.assume(sor(ls[i] - ls[j] >= 0.0625, ls[j] - ls[i] >= 0.0625))
    with ope_env(env) as e:
        cls = cb.SwitchDREstimator if dr else cb.SwitchEstimator
        est = cls(rmax=rmax) if rmax is not None else cls()
        got = est.evaluate(cb.BanditsEstimatorInput(ActionSpace(a), [s.sample for s in ss], True), candidates=k, exp_base=base)
    # the threshold used is one of the candidates, and none has a smaller bound on the error
    best = 0
    for i in range(1, k):
        if bool(ls[i] < ls[best]):
            best = i
    vals = values(cands[best]) if k else values(lo - 1e-6)
    result_is(env, e, got, vals, ss, "switch")


for tb in (T1, T3):
    for d in (False, True):
        suite.case(bounds="2 samples from a table of propensities, 2 thresholds", tables=tb, dr=d, k=2, base=1.5, rmax=8.0, name=f"switch_case(T{1 if tb is T1 else 3},dr={d},k=2)")(switch_case)
for d in (False, True):
    suite.case(bounds="2 samples, 3 actions from a table of propensities, no threshold", tables=T2, dr=d, k=0, base=1.5, rmax=None, name=f"switch_case(T2,dr={d},k=0)")(switch_case)
suite.case(tier="thorough", bounds="2 samples, 3 actions from a table of propensities, 3 thresholds", tables=T2, dr=False, k=3, base=2.0, rmax=8.0, name="switch_case(T2,k=3)")(switch_case)
suite.case(bounds="2 samples, 2 actions from a table, 2 thresholds, largest reward from the data", tables=T1, dr=False, k=2, base=2.0, rmax=None, name="switch_case(T1,data,k=2)")(switch_case)


def extremes_case(env, n, a, dr, model):
    """with every weight admitted the switch is the propensity (doubly robust) estimate, with none it is the direct one"""
    acts = [env.pick(f"logged{i}", list(range(a))) for i in range(n)]
    ss = samples(env, n, a, acts)
    base_apart(env, ss)
    with ope_env(env) as e:
        cls = cb.SwitchDREstimator if dr else cb.SwitchEstimator
        got = cls(rmax=8.0).evaluate(cb.BanditsEstimatorInput(ActionSpace(a), [s.sample for s in ss], True), **({"candidates": 0} if model else {"exp_base": 1, "candidates": 2}))
    if model:
        vals = [dot(s.pi, s.rh) for s in ss]
    else:
        vals = [weight(s) * (s.r - s.rl) + dot(s.pi, s.rh) if dr else weight(s) * s.r for s in ss]
    result_is(env, e, got, vals, ss, "switch")


for d in (False, True):
    suite.case(bounds="1 sample, 2 actions", n=1, a=2, dr=d, model=True)(extremes_case)
suite.case(bounds="1 sample, 2 actions", n=1, a=2, dr=False, model=False)(extremes_case)
