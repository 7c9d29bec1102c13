"""Post-training evaluation reports, and the adapter from evaluation pages to the off-policy estimators."""
import contextlib
import math as real_math
import types
import numpy as np
from reagent.evaluation import evaluator as ev_mod, ope_adapter as oa
from reagent.evaluation.cpe import CpeEstimate
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.ope import utils as ope_utils
from reagent.ope.estimators import estimator as est_mod, contextual_bandits_estimators as cb, sequential_estimators as seq
from checks.common import *
from checks.D19 import Float
from checks.D21 import page, lists, dot, mean, ids_of, episodes, Errs

suite = Suite("D23", ["logged propensities are at least 1/8; rewards and values lie in [-8, 8]", "the page-level estimators are judged by their own property; here they stand for arbitrary results",
                      "bootstrap standard errors are arbitrary numbers"])


class Math:
    """math for numbers that may be symbolic (all of them finite)"""
    isnan = staticmethod(lambda v: real_math.isnan(v) if isinstance(v, float) else False)
    isinf = staticmethod(lambda v: real_math.isinf(v) if isinstance(v, float) else False)
    fabs = staticmethod(lambda v: real_math.fabs(v) if isinstance(v, (int, float)) else sabs(v))

    def __getattr__(self, n):
        return getattr(real_math, n)


@contextlib.contextmanager
def ope_env(env):
    """the estimator package over symbolic numbers"""
    with contextlib.ExitStack() as s:
        for m in (ope_utils, est_mod):
            s.enter_context(env.patch(m, "math", Math()))
        for m in (ope_utils, est_mod, cb, seq, oa):
            s.enter_context(env.patch(m, "float", Float))
        e = Errs(env)
        for m in (est_mod, oa):
            s.enter_context(env.patch(m, "bootstrapped_std_error_of_mean", e))
        yield e


class Stub:
    """a page estimator that remembers what it was given"""
    made = []

    def __init__(self, kind, *args):
        self.kind, self.args, self.calls = kind, args, []
        Stub.made.append(self)

    def estimate(self, edp, *args, **kw):
        tok = CpeEstimate(len(self.calls), self.kind, args, tuple(sorted(kw.items())))
        self.calls.append((edp, args, kw, tok))
        return (self.kind + "dm", tok), (self.kind + "ips", tok), (self.kind + "dr", tok)


def report_case(env, n, a, metrics, q=True, names=True):
    Stub.made = []
    mk = lambda kind: (lambda *args: Stub(kind, *args))
    A = [f"act{i}" for i in range(a)] if names else None
    M = [f"m{i}" for i in range(metrics)] if metrics else None
    K = 1 + metrics
    mr, mv = env.real("mr", n, a * K), env.real("mv", n, a * K)
    met = env.real("met", n, metrics) if metrics else None
    oq = env.real("oq", n, a, lo=-8, hi=8) if q else None
    ei = env.ints("ei", n, 1, lo=0, hi=a - 1) if q else None
    lv, mlv = env.real("lv", n, 1, lo=-8, hi=8), env.real("mlv", n, 1, lo=-8, hi=8)
    am = torch.eye(a)[[i % a for i in range(n)]]
    mvl = (mv[:, a:] if metrics else mv[:, :0])
    edp = EvaluationDataPage(mdp_id=torch.zeros(n, 1), sequence_number=torch.arange(n).reshape(n, 1), logged_propensities=env.real("lp", n, 1, lo=0.125, hi=1), logged_rewards=env.real("r", n, 1),
                             action_mask=am, model_propensities=env.real("pi", n, a), model_rewards=mr[:, :a], model_rewards_for_logged_action=env.real("mrl", n, 1), model_values=mv[:, :a],
                             optimal_q_values=oq, eval_action_idxs=ei, logged_values=lv, model_values_for_logged_action=mlv, logged_metrics=met, logged_metrics_values=env.real("lmv", n, metrics) if metrics else None,
                             model_metrics=mr[:, a:] if metrics else None, model_metrics_for_logged_action=None, model_metrics_values=mvl if metrics else None, model_metrics_values_for_logged_action=env.real("mmvl", n, metrics) if metrics else None)
    seen = []
    with env.patch(ev_mod, "DoublyRobustEstimator", mk("dr")), env.patch(ev_mod, "SequentialDoublyRobustEstimator", mk("sdr")), env.patch(ev_mod, "WeightedSequentialDoublyRobustEstimator", mk("wsdr")), \
            env.patch(ev_mod, "float", Float):
        ev = ev_mod.Evaluator(A, 0.9, None, metrics_to_score=M)
        ev.add_observer(types.SimpleNamespace(observing_keys=None, get_observing_keys=lambda: ["cpe_details"], update=lambda k, v: seen.append((k, v))))
        out = ev.evaluate_post_training(edp)
    env.check(len(seen) == 1 and seen[0][0] == "cpe_details" and seen[0][1] is out, "observers receive the report")
    by = {s.kind: s for s in Stub.made}
    env.check(sorted(by) == ["dr", "sdr", "wsdr"] and by["sdr"].args == (0.9,) and by["wsdr"].args == (0.9,), "estimators discount by gamma")
    scored = M if (metrics and names) else []
    env.check(sorted(out.metric_estimates) == sorted(scored), "one entry for each metric")
    for pos, name in enumerate([None] + list(scored)):
        got = out.reward_estimates if name is None else out.metric_estimates[name]
        d = [c for c in by["dr"].calls if c[3] is got.direct_method[1]][0]
        env.check((got.direct_method, got.inverse_propensity, got.doubly_robust) == (("drdm", d[3]), ("drips", d[3]), ("drdr", d[3])), "bandit estimates in place")
        s = [c for c in by["sdr"].calls if c[3] is got.sequential_doubly_robust[0][1]]
        w = {f: [c for c in by["wsdr"].calls if c[3] is getattr(got, f)[0][1]] for f in ("weighted_doubly_robust", "magic")}
        env.check(len(s) == 1 and all(len(v) == 1 for v in w.values()), "sequential estimates in place")
        env.check(config(w["weighted_doubly_robust"][0]) == (1, True) and config(w["magic"][0]) == (25, True), "horizons of the weighted and blended estimators")
        for e in (d[0], s[0][0], w["weighted_doubly_robust"][0][0], w["magic"][0][0]):
            if name is None:
                env.check(e is edp, "rewards are scored on the page itself")
            else:
                i = pos - 1
                env.eq(e.logged_rewards, met[:, i:i + 1], "the metric stands for the reward")
                env.eq(e.model_rewards, mr[:, a + i * a:a + (i + 1) * a], "predicted metric")
                env.eq(e.model_values, mv[:, a + i * a:a + (i + 1) * a], "predicted metric value")
    if names and q:
        Q, E = env.L(oq), [x[0] for x in env.L(ei)]
        for i, nme in enumerate(A):
            col = [r[i] for r in Q]
            env.close([out.q_value_means[nme]], [mean(col)], "mean value of each action", 1e-4)
            sd = out.q_value_stds[nme]
            env.close([sd * sd * (n - 1)], [ssum((x - mean(col)) * (x - mean(col)) for x in col)], "spread of the values", 1e-2)
            env.le(0, sd, "spread of the values")
            env.close([out.action_distribution[nme]], [ssum(ite(x == i, 1, 0) for x in E) / n], "share of each action", 1e-5)
        env.check(set(out.q_value_means) == set(out.q_value_stds) == set(out.action_distribution) == set(A), "one entry for each action")
    else:
        env.check(not out.q_value_means and not out.q_value_stds and not out.action_distribution, "nothing is reported without actions and values")
    env.close([out.mc_loss], [mse([(x[0], y[0]) for x, y in zip(env.L(lv), env.L(mlv))])], "squared error of the predicted values", 1e-2)


def config(call):
    _, args, kw, _ = call
    v = dict(zip(("num_j_steps", "whether_self_normalize_importance_weights"), args))
    v.update(kw)
    return v["num_j_steps"], v["whether_self_normalize_importance_weights"]


suite.case(bounds="3 samples, 2 actions, no metric", n=3, a=2, metrics=0)(report_case)
suite.case(bounds="2 samples, 3 actions, 2 metrics", n=2, a=3, metrics=2)(report_case)
suite.case(bounds="2 samples, 2 actions, 1 metric, no decision values", n=2, a=2, metrics=1, q=False)(report_case)
suite.case(bounds="2 samples, 2 actions, 1 metric, actions without names", n=2, a=2, metrics=1, names=False)(report_case)


def ranking_case(env, sizes, a):
    """how often each action has the highest score"""
    ev = ev_mod.Evaluator([f"a{i}" for i in range(a)], 0.9, None)
    arr = [env.real(f"x{k}", n, a, lo=-4, hi=4) for k, n in enumerate(sizes)]
    rows = [r for t in arr for r in env.L(t)]
    best = [env.pick(f"best{k}", list(range(a))) for k in range(len(rows))]
    for r, b in zip(rows, best):
        for j, v in enumerate(r):
            if j != b:
                env.assume(r[b] >= v + 0.0625)
    share, count = ev._get_batch_logged_actions(arr)
    env.eq([count[f"a{i}"] for i in range(a)], [best.count(i) for i in range(a)], "count of each action")
    env.close([share[f"a{i}"] for i in range(a)], [best.count(i) / len(rows) for i in range(a)], "share of each action", 1e-6)


suite.case(bounds="batches of 2 and 1 rows, 2 actions", sizes=[2, 1], a=2)(ranking_case)
suite.case(bounds="batches of 1 and 2 rows, 3 actions", sizes=[1, 2], a=3)(ranking_case)


def distance_case(env, n):
    ev = ev_mod.Evaluator(None, 0.9, None)
    names = [f"a{i}" for i in range(n)]
    t, g = [env.num(f"t{i}", 0, 1) for i in range(n)], [env.num(f"g{i}", 0, 1) for i in range(n)]
    env.close([ev.get_target_distribution_error(names, t, dict(zip(names, g)))], [mse(list(zip(t, g)))], "squared distance of the distributions", 1e-4)
    env.check(ev.get_target_distribution_error(names, [], dict(zip(names, g))) is None, "no target, no distance")
    x, y = env.num("x", -4, 4), env.num("y", -4, 4)
    env.close([ev_mod.Evaluator.huberLoss(x, y)], [huber([(x, y)])], "Huber loss", 1e-4)


suite.case(bounds="3 actions", n=3)(distance_case)


def adapter_is(env, got, vals, base, label, errors):
    """vals: one number for each sample"""
    raw, small = mean(vals), base < 1e-6
    env.close([got.raw], [raw], label, 1e-3)
    env.close([got.normalized * base], [ite(small, 0, raw)], label + " over the logged score", 1e-3)
    env.check(implies(small, got.normalized == 0), label + " is not normalised by a vanishing score")
    data, err = errors.seen[-1][0], errors.out[-1]
    env.close(data, vals, label + " bootstrap samples", 1e-3)
    env.close([got.raw_std_error], [err], label + " error", 1e-4)
    env.close([got.normalized_std_error * base], [ite(small, 0, err)], label + " error over the logged score", 1e-3)


def bandit_case(env, n, a):
    p = page(env, n, a)
    rew, lp, mask, pi, r, rl, _ = lists(env, p)
    base = mean(rew)
    env.assume(sor(base <= -0.01, base >= 0.01, base == 0))
    kind = env.pick("estimator", ["dm", "ips", "dr"])
    est = {"dm": cb.DMEstimator, "ips": cb.IPSEstimator, "dr": cb.DoublyRobustEstimator}[kind]()
    with ope_env(env) as e:
        got = oa.OPEstimatorAdapter(est).estimate(p)
    w = [dot(pi[i], mask[i]) / lp[i] for i in range(n)]
    direct = [dot(pi[i], r[i]) for i in range(n)]
    vals = {"dm": direct, "ips": [w[i] * rew[i] for i in range(n)], "dr": [direct[i] + w[i] * (rew[i] - rl[i]) for i in range(n)]}[kind]
    adapter_is(env, got, vals, base, kind, e)


suite.case(bounds="2 samples, 2 actions, each with any or no logged action", n=2, a=2)(bandit_case)
suite.case(bounds="1 sample, 3 actions, any or no logged action", n=1, a=3)(bandit_case)
suite.case(tier="thorough", bounds="3 samples, 2 actions, each with any or no logged action", n=3, a=2)(bandit_case)


def sequential_spec(A, rew, lp, pi, q, gamma, weighted):
    """per-decision doubly robust value with weights averaged (or normalised) over the episodes that reached each step"""
    n, T = len(A), max(len(e) for e in A)
    rho = []
    for i in range(n):
        c, row = 1, []
        for t in range(len(A[i])):
            c = c * dot(A[i][t], pi[i][t]) / lp[i][t]
            row.append(c)
        rho.append(row + [0] * (T - len(row)))
    tot = [ssum(rho[i][t] for i in range(n)) if weighted else sum(1 for i in range(n) if t < len(A[i])) for t in range(T)]
    w = [[rho[i][t] / tot[t] for t in range(T)] for i in range(n)]
    out = 0
    for i in range(n):
        for t in range(len(A[i])):
            before = 1 / n if t == 0 else w[i][t - 1]
            out = out + gamma ** t * (w[i][t] * (rew[i][t] - dot(q[i][t], A[i][t])) + before * dot(pi[i][t], q[i][t]))
    return out


def sequential_case(env, lens, a, gamma, weighted):
    n = sum(lens)
    p = page(env, n, a, torch.tensor(ids_of(lens)), any_mask=False)
    rew, lp, mask, pi, _, _, q = lists(env, p)
    eps, k = [], 0
    for m in lens:
        eps.append(list(range(k, k + m)))
        k += m
    if weighted:
        for r in pi:
            for x in r:
                env.assume(x >= 0.125)
    split = lambda xs: [[xs[j] for j in e] for e in eps]
    want = sequential_spec(split(mask), split(rew), split(lp), split(pi), split(q), gamma, weighted)
    base = mean(ssum(gamma ** t * x for t, x in enumerate(r)) for r in split(rew))
    env.assume(sor(base <= -0.01, base >= 0.01, base == 0))
    with ope_env(env) as e:
        got = oa.SequentialOPEstimatorAdapter(seq.DoublyRobustEstimator(weighted=weighted), gamma).estimate(p)
    adapter_is(env, got, [want], base, "sequential doubly robust", e)


for wt in (False, True):
    suite.case(bounds="episodes of 1 and 2 steps, 2 actions", lens=[1, 2], a=2, gamma=0.5, weighted=wt)(sequential_case)
    suite.case(bounds="episodes of 1 and 1 steps, 2 actions", lens=[1, 1], a=2, gamma=0.75, weighted=wt)(sequential_case)
suite.case(bounds="one episode of 3 steps, 2 actions", lens=[3], a=2, gamma=0.5, weighted=False)(sequential_case)
suite.case(tier="thorough", bounds="episodes of 2, 1 and 3 steps, 1 action", lens=[2, 1, 3], a=1, gamma=0.5, weighted=False)(sequential_case)


def evaluator_case(env):
    """which estimator fills which slot of the adapter-based report"""
    made = {}
    p = page(env, 2, 2, torch.tensor(ids_of([1, 1])), any_mask=False)
    toks = {}
    def spy(cls):
        def estimate(self, edp, **kw):
            inner = getattr(self, "_ope_estimator", None) or self.seq_ope_estimator
            key = (type(inner).__module__.rsplit(".", 1)[-1], type(inner).__name__, getattr(self, "gamma", None))
            tok = (key, edp is p, len(toks))
            toks[len(toks)] = tok
            return tok
        return estimate
    with env.patch(oa.OPEstimatorAdapter, "estimate", spy(oa.OPEstimatorAdapter)), env.patch(oa.SequentialOPEstimatorAdapter, "estimate", spy(oa.SequentialOPEstimatorAdapter)):
        got = oa.OPEvaluator(["a", "b"], 0.7, None).score_cpe("Reward", p)
    want = {"direct_method": ("contextual_bandits_estimators", "DMEstimator", None), "inverse_propensity": ("contextual_bandits_estimators", "IPSEstimator", None),
            "doubly_robust": ("contextual_bandits_estimators", "DoublyRobustEstimator", None), "sequential_doubly_robust": ("sequential_estimators", "DoublyRobustEstimator", 0.7),
            "weighted_doubly_robust": ("sequential_estimators", "DoublyRobustEstimator", 0.7), "magic": ("sequential_estimators", "MAGICEstimator", 0.7)}
    for f, k in want.items():
        env.check(getattr(got, f)[:2] == (k, True), f"estimator behind {f}")


suite.case(bounds="one page")(evaluator_case)
