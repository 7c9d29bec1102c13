"""Off-policy evaluation runs: spreading experiments over workers, collecting their results, reporting and logging them."""
import itertools
import os
import types
import numpy as np
from reagent.evaluation import cpe
from reagent.evaluation import doubly_robust_estimator as dre
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.ope.estimators import estimator as est
from checks.common import *
from checks.D23 import Math, ope_env
from checks.D34 import InlinePool

suite = Suite("D46", ["rewards, scores and weights lie in [-8, 8] unless stated", "a pool of processes runs its tasks in this process; what is written for a task is kept aside"])

ODD = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}


def means(xs):
    return ssum(xs) / len(xs)


def results_case(env, n, odd=False, gts=True):
    """reports are averages over the valid estimates and over nothing else"""
    rows = []
    with ope_env(env):
        res = est.EstimatorResults()
        for i in range(n):
            l, e, w = (env.num(f"{k}{i}", -8, 8) for k in "lew")
            g = env.num(f"g{i}", -8, 8) if gts and env.flag(f"truth{i}") else None
            kind = env.pick(f"kind{i}", ["ok", "none"] + list(ODD)) if odd and i else "ok"
            if kind == "none":
                res.append(None)
                continue
            res.append(est.EstimatorResult(log_reward=l, estimated_reward=ODD.get(kind, e), ground_truth_reward=g, estimated_weight=w))
            if kind == "ok":
                rows.append((l, e, 0 if g is None else g, w))
        env.check(len(res.results) == len(rows), "how many estimates are kept")
        lr, er, gr, vs_truth, vs_log, wt = res.report()
        for got, j, what in ((lr, 0, "logged reward"), (er, 1, "estimated reward"), (gr, 2, "true reward"), (wt, 3, "weight")):
            env.eq(got, means([r[j] for r in rows]), "mean " + what, 1e-4)
        for d, j, what in ((vs_truth, 2, "truth"), (vs_log, 0, "log")):
            ds = [r[1] - r[j] for r in rows]
            env.close([d.bias.item()], [means(ds)], "bias against the " + what, 1e-3)
            rmse = d.rmse.item()
            env.check(rmse >= 0, "size of the error")
            env.close([rmse * rmse], [means([x * x for x in ds])], "squared error against the " + what, 1e-2)
            if len(rows) > 1:
                m = means(ds)
                env.close([d.variance.item()], [ssum((x - m) * (x - m) for x in ds) / (len(ds) - 1)], "variance against the " + what, 1e-2)
            again = (d.bias.item(), d.rmse.item())
            env.eq(again[0], d.bias.item(), "asked twice")
            env.eq(again[1], rmse, "asked twice")


for kw in (dict(n=1), dict(n=2), dict(n=3), dict(n=3, odd=True, gts=False), dict(n=2, odd=True), dict(n=4, gts=False)):
    suite.case(bounds="up to 4 estimates", **kw)(results_case)


class Guess(est.Estimator):
    """answers with a number of its own for every data set; sometimes it has none, or fails"""

    def __init__(self, env, name, fails):
        super().__init__()
        self.env, self.name, self.fails, self.calls = env, name, fails, []

    def evaluate(self, input, **kw):
        self.calls.append(input)
        kind = self.env.pick(f"{self.name}{input}{len(self.calls)}", ["ok", "none"] + (["error"] if self.fails else []))
        if kind == "error":
            raise ValueError("cannot say")
        if kind == "none":
            return None
        v = self.env.num(f"v{self.name}{input}{len(self.calls)}", -8, 8)
        self.env.answers.setdefault(self.name, []).append(v)
        return est.EstimatorResult(log_reward=input, estimated_reward=v, ground_truth_reward=None)

    def __repr__(self):
        return self.name


class Files:
    """pickle, for objects that cannot be: the file holds a ticket"""
    HIGHEST_PROTOCOL = 4

    def __init__(self):
        self.kept, self.names = [], []

    def dump(self, obj, fp, protocol=None):
        fp.write(str(len(self.kept)).encode())
        self.kept.append(obj)
        self.names.append(fp.name)

    def load(self, fp):
        return self.kept[int(fp.read())]


def evaluator_case(env, plan, workers, same=False):
    """every estimator meets every data set it is listed with exactly once, however many workers share them"""
    env.answers = {}
    names = sorted({n for ns in plan for n in ns})
    ests = {n: Guess(env, n, workers > 0) for n in names}
    jobs = [([ests[n] for n in ns], 0 if same else k) for k, ns in enumerate(plan)]
    files = Files()
    InlinePool.sizes, InlinePool.fail = [], False
    quiet = types.SimpleNamespace(info=lambda *a: None, error=lambda *a: None, warning=lambda *a: None)
    with ope_env(env), env.patch(est, "Pool", InlinePool), env.patch(est, "pickle", files), env.patch(est, "logger", quiet), env.patch(est, "logging", quiet):
        ev = est.Evaluator(iter(jobs) if workers <= 0 else jobs, workers)
        got = ev.evaluate()
    if workers > 0:
        env.check(InlinePool.sizes == [workers], "number of processes")
        env.check(not any(os.path.exists(f) for f in files.names), "files left behind")
        sizes = sorted(len(k) for k in files.kept)
        env.check(sum(sizes) == len(jobs) and sizes[-1] - sizes[0] <= 1, "evenly spread")
    else:
        env.check(not InlinePool.sizes and not files.kept, "no processes")
    for n in names:
        want = sorted(k for (es, k) in jobs for e in es if e is ests[n])
        env.check(sorted(ests[n].calls) == want, "every experiment once")
        env.check(n in got, "every estimator is answered for")
        have = [r.estimated_reward for r in got[n].results] if n in got else []
        mine = env.answers.get(n, [])
        env.check(len(have) == len(mine), "how many results")
        for a, b in zip(have, mine):
            env.eq(a, b, "results of the estimator")
    env.check(set(got) == set(names), "nothing else")


for kw in (dict(plan=[("a",)], workers=0), dict(plan=[("a", "b"), ("b",)], workers=0), dict(plan=[("a", "b"), ("a",)], workers=-1),
           dict(plan=[("a",), ("a",), ("b",)], workers=0, same=True),
           dict(plan=[("a",)], workers=1), dict(plan=[("a", "b"), ("b",)], workers=1), dict(plan=[("a",), ("a", "b"), ("b",)], workers=2),
           dict(plan=[("a",), ("b",)], workers=3), dict(plan=[("a", "b")], workers=2), dict(plan=[("a",), ("a",), ("a",), ("a",)], workers=2),
           dict(plan=[("a",), ("b",), ("a",)], workers=1, same=True)):
    suite.case(bounds="up to 4 experiments, 2 estimators, 3 workers", **kw)(evaluator_case)


def lost_case(env):
    """a task that cannot be read is left out; the others are evaluated"""
    env.answers = {}
    a, b = Guess(env, "a", True), Guess(env, "b", True)
    files = Files()
    bad = env.pick("bad", [0, 1, 2])

    def load(fp, real=files.load):
        i = int(fp.read())
        if i == bad:
            raise OSError("gone")
        return files.kept[i]

    files.load = load
    quiet = types.SimpleNamespace(info=lambda *a: None, error=lambda *a: None, warning=lambda *a: None)
    with ope_env(env), env.patch(est, "Pool", InlinePool), env.patch(est, "pickle", files), env.patch(est, "logger", quiet), env.patch(est, "logging", quiet):
        got = est.Evaluator([([a], 0), ([b], 1)], 2).evaluate()
    for i, e in enumerate((a, b)):
        env.check(e.calls == ([] if i == bad else [i]), "readable tasks are evaluated")
        env.check((e.name in got) == (i != bad), "answered for")
        for x, y in zip([r.estimated_reward for r in got[e.name].results] if e.name in got else [], env.answers.get(e.name, [])):
            env.eq(x, y, "result")


suite.case(bounds="2 tasks, at most one unreadable")(lost_case)


def shown_case(env, n):
    """what is printed holds the numbers of the report"""
    out = []
    with ope_env(env), env.patch(est, "print", lambda *a, **k: out.append(" ".join(map(str, a)))):
        res = {}
        for name in "ab":
            res[name] = est.EstimatorResults()
            for i in range(n):
                res[name].append(est.EstimatorResult(log_reward=env.num(f"l{name}{i}", 0, 1), estimated_reward=env.num(f"e{name}{i}", 2, 3), ground_truth_reward=env.num(f"g{name}{i}", 4, 5)))
        rep = {k: v.report() for k, v in res.items()}
        est.Evaluator.report_results(res)
    env.check(len(out) == 2, "one line each")
    for name, line in zip("ab", out):
        env.check(line.startswith(name), "named")
        for v in rep[name][:3]:
            env.check(str(v) in line, "shows the averages")


suite.case(bounds="2 estimators of 2 results", n=2)(shown_case)

FIELDS = ("direct_method", "inverse_propensity", "doubly_robust", "sequential_doubly_robust", "weighted_doubly_robust", "magic")
MORE = ("switch", "switch_dr")


def estimates(env, pre, odd=False, skip=()):
    d, at = {}, 0
    for f in FIELDS:
        if f in skip:
            continue
        vs = []
        for j in range(4):
            vs.append(env.num(f"{pre}.{f}.{j}", at, at + 0.5))
            at += 1
        if odd:
            vs[1] = env.pick(f"{pre}.{f}.odd", [vs[1], float("nan"), None] if f in odd else [vs[1]])
        d[f] = cpe.CpeEstimate(raw=vs[0], normalized=vs[1], raw_std_error=vs[2], normalized_std_error=vs[3])
    return cpe.CpeEstimateSet(**d)


def in_order(text, parts):
    p = 0
    for s in parts:
        p = text.find(s, p)
        if p < 0:
            return False
        p += len(s)
    return True


def details(env, metrics, **kw):
    d = cpe.CpeDetails()
    d.reward_estimates = estimates(env, "reward", **kw)
    for m in metrics:
        d.metric_estimates[m] = estimates(env, m)
    return d


def log_case(env, metrics):
    """every estimate is logged with its own error, normalised and raw"""
    lines = []
    d = details(env, metrics)
    with env.patch(cpe.logger, "info", lines.append):
        d.log()
    groups = [d.reward_estimates] + [d.metric_estimates[m] for m in metrics]
    text = "\n".join(lines)
    pos = 0
    for g, name in zip(groups, ["Reward"] + list(metrics)):
        pos = text.find(name + " Estimates", pos)
        env.check(pos >= 0, "announces the metric")
        end = text.find(" Estimates", pos + len(name) + 10)
        part = text[pos:] if end < 0 else text[pos:end]
        pos += 1
        for f in FIELDS:
            e = getattr(g, f)
            want = [f"{x:.3f}" for x in (e.normalized, e.normalized_std_error, e.raw, e.raw_std_error)]
            env.check(any(in_order(l, ["normalized", want[0], want[1], "raw", want[2], want[3]]) for l in part.split("\n")), "estimates and errors of " + f)


for kw in (dict(metrics=()), dict(metrics=("clicks",)), dict(metrics=("clicks", "views"))):
    suite.case(bounds="2 metrics", **kw)(log_case)


def board_case(env, metrics, odd=()):
    """the board gets the normalised estimate of every method and metric; missing and undefined ones are zero"""
    told = []
    d = details(env, metrics, odd=odd)
    ctx = types.SimpleNamespace(add_scalar=lambda *a, **k: told.append(a))
    with env.patch(cpe, "SummaryWriterContext", ctx), env.patch(cpe, "math", Math()):
        d.log_to_tensorboard()
    env.check(len(told) == 6 * (1 + len(metrics)), "number of entries")
    said = dict(told)
    env.check(len(said) == len(told), "entries have names of their own")
    key = dict(direct_method="Direct_Method_Reward", inverse_propensity="IPS_Reward", doubly_robust="Doubly_Robust_Reward",
               sequential_doubly_robust="Sequential_Doubly_Robust", weighted_doubly_robust="Weighted_Sequential_Doubly_Robust", magic="MAGIC")
    for m, g in [("Reward", d.reward_estimates)] + [(m, d.metric_estimates[m]) for m in metrics]:
        for f in FIELDS:
            v = getattr(g, f).normalized
            if v is None or isinstance(v, float) and v != v:
                v = 0
            env.check(f"CPE/{m}/{key[f]}" in said, "named after metric and method")
            if f"CPE/{m}/{key[f]}" in said:
                env.eq(said[f"CPE/{m}/{key[f]}"], v, "normalised estimate of " + f)


for kw in (dict(metrics=()), dict(metrics=("clicks",)), dict(metrics=(), odd=("direct_method", "magic", "doubly_robust")),
           dict(metrics=("a", "b"), odd=("inverse_propensity", "weighted_doubly_robust", "sequential_doubly_robust"))):
    suite.case(bounds="2 metrics", **kw)(board_case)


def missing_case(env, board):
    """incomplete sets are neither logged nor shown; filled up they are complete and nothing else changed"""
    miss = env.pick("missing", [None] + list(FIELDS))
    s = estimates(env, "r", skip=(miss,))
    told = []
    ctx = types.SimpleNamespace(add_scalar=lambda *a, **k: told.append(a))

    def show():
        with env.patch(cpe, "SummaryWriterContext", ctx), env.patch(cpe.logger, "info", told.append), env.patch(cpe, "math", Math()):
            s.log_to_tensorboard("m") if board else s.log()

    if miss is None:
        show()
        env.check(len(told) == 6, "complete sets are shown")
    else:
        env.refuses(show, AssertionError)
        env.check(not told, "nothing is shown")
    full = s.fill_empty_with_zero()
    for f in FIELDS + MORE:
        a, b = getattr(s, f), getattr(full, f)
        for j in range(4):
            env.eq(b[j], 0 if a is None else a[j], "filled with zero, or left alone")
    env.check(all(getattr(s, f) is None for f in MORE + (() if miss is None else (miss,))), "the original is left alone")
    full.check_estimates_exist()


for b in (False, True):
    suite.case(bounds="any one estimate missing", board=b)(missing_case)


def split_case(env, n, a, train, valid):
    """every example ends up in exactly one part, all of it, and the parts have the announced sizes"""
    perm = env.pick("order", list(itertools.permutations(range(n))) if n < 4 else [tuple(range(n)), tuple(reversed(range(n))), (2, 0, 3, 1), (1, 3, 0, 2)])
    logged = [env.pick(f"a{i}", range(a)) if i == 0 else i % a for i in range(n)]
    mask = torch.tensor([[float(j == k) for j in range(a)] for k in logged])
    cols = dict(contexts=env.real("ctx", n, 2), model_propensities=env.real("pi", n, a, lo=0, hi=1), logged_rewards=env.real("r", n, 1),
                model_rewards=env.real("mr", n, a), model_rewards_for_logged_action=env.real("ml", n, 1), logged_propensities=env.real("lp", n, 1, lo=0, hi=1))
    p = EvaluationDataPage(mdp_id=None, sequence_number=None, action_mask=mask, **cols)
    with env.patch(np.random, "permutation", lambda k: np.array(perm[:k])):
        s = dre.DoublyRobustEstimator()._split_data(p, train, valid)
        env.refuses(lambda: dre.DoublyRobustEstimator()._split_data(p._replace(contexts=None), train, valid), ValueError)
    nt = int(train * n)
    nv = int((train + valid) * n) - nt
    parts = dict(train=perm[:nt], valid=perm[nt:nt + nv], eval=perm[nt + nv:])
    dicts = dict(contexts=s.contexts_dict, model_propensities=s.model_propensities_dict, logged_rewards=s.logged_rewards_dict, model_rewards=s.model_rewards_dict,
                 model_rewards_for_logged_action=s.model_rewards_for_logged_action_dict, logged_propensities=s.logged_propensities_dict)
    for k, idx in parts.items():
        env.check(s.num_examples_dict[k] == len(idx), "announced size")
        for c, d in dicts.items():
            src = env.L(cols[c])
            got = env.L(d[k])
            env.check(len(got) == len(idx), "size of the part")
            for row, i in zip(got, idx):
                for x, y in zip(row, src[i]):
                    env.eq(x, y, "examples stay whole: " + c)
        am, al = env.L(s.action_mask_dict[k]), env.L(s.actions_logged_dict[k])
        env.check(len(am) == len(idx) and len(al) == len(idx), "size of the part")
        for row, lg, i in zip(am, al, idx):
            for j, x in enumerate(row):
                env.eq(x, 1 if logged[i] == j else 0, "mask of the example")
            env.eq(lg[0], logged[i], "logged action of the example")


for kw in (dict(n=3, a=2, train=0.4, valid=0.4), dict(n=3, a=3, train=0.7, valid=0.3), dict(n=4, a=2, train=0.5, valid=0.25), dict(n=4, a=2, train=0.25, valid=0.25), dict(n=4, a=3, train=0.25, valid=0.5), dict(n=1, a=2, train=0.4, valid=0.1)):
    suite.case(bounds="up to 4 examples of 3 actions", **kw)(split_case)
