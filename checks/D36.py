"""Training statistics: what observers, aggregators, reporters and the TensorBoard context say about the values they were given."""
import contextlib
import math
import types
import pytorch_lightning as pl
import torch.nn as nn
from reagent.core import aggregators as agg
from reagent.core import observers as ob
from reagent.core import report_utils
from reagent.core import tracker
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.tensorboardX import SummaryWriterContext, summary_writer_context
from reagent.training import loss_reporter as lr
from reagent.training.dqn_trainer import BCQConfig, DQNTrainer
from reagent.training.reagent_lightning_module import ReAgentLightningModule, StoppingEpochCallback
from reagent.workflow.reporters.actor_critic_reporter import ActorCriticReporter
from reagent.workflow.reporters.discrete_crr_reporter import DiscreteCRRReporter
from reagent.workflow.reporters.discrete_dqn_reporter import DiscreteDQNReporter
from reagent.workflow.reporters.parametric_dqn_reporter import ParametricDQNReporter
from reagent.workflow.reporters.reporter_base import DataPointsPerEpochMixin, ReporterBase
from reagent.workflow.reporters.sac_reporter import SACReporter
from reagent.workflow.reporters.slate_q_reporter import SlateQReporter
from reagent.workflow.reporters.td3_reporter import TD3Reporter
from torch.utils.tensorboard import SummaryWriter
from checks import common
from checks.common import *

suite = Suite("D36", ["the summary writer is a stand-in that records what it is told; reported values lie in [-8, 8]"])


class Writer(SummaryWriter):
    """remembers every call"""

    def __init__(self, fail=None):
        self.told, self.fail = [], fail

    def add_scalar(self, tag, scalar_value, global_step=None):
        self.tell("scalar", tag, scalar_value, global_step)

    def add_histogram(self, tag, values, global_step=None):
        self.tell("histogram", tag, values, global_step)

    def add_custom_scalars(self, layout):
        self.tell("layout", layout, None, None)

    def tell(self, *a):
        if self.fail:
            raise self.fail
        self.told.append(a)

    def of(self, kind, tag):
        return [t[2] for t in self.told if t[0] == kind and t[1] == tag]


@contextlib.contextmanager
def writing(env, writer=None):
    """a fresh context, restored afterwards"""
    with env.patch(SummaryWriterContext, "_writer_stacks", []), env.patch(SummaryWriterContext, "_global_step", 0), env.patch(SummaryWriterContext, "_custom_scalars", {}):
        with summary_writer_context(writer):
            yield SummaryWriterContext


class Keep(tracker.Aggregator):
    def __init__(self, key):
        super().__init__(key)
        self.groups = []

    def aggregate(self, values):
        self.groups.append(list(values))


def mean(v):
    return ssum(v) / len(v)


def interval_case(env, n, epochs):
    """every value is aggregated exactly once, in order, in groups of the interval that no epoch end crosses"""
    k = env.inum("interval", 0, n)
    k = None if (k == 0 and env.flag("unset")) else k
    keep = Keep("x")
    o = ob.IntervalAggregatingObserver(k, keep, observe_epoch_end=epochs)
    env.check(sorted(o.get_observing_keys()) == (["epoch_end", "x"] if epochs else ["x"]), "what it listens to")
    want, pend, since = [], [], 0
    for i in range(n):
        v = env.num(f"v{i}", -8, 8)
        o.update("x", v)
        pend.append(v)
        since += 1
        if k is not None and k != 0 and since % k == 0:
            want.append(pend)
            pend = []
        if env.flag(f"end{i}"):
            if epochs:
                o.update("epoch_end", i)
            else:
                o.flush()
            if pend:
                want.append(pend)
            pend, since = [], 0
        env.check(len(keep.groups) == len(want) and all(len(a) == len(b) for a, b in zip(keep.groups, want)), "groups so far")
        env.eq([x for g in keep.groups for x in g], [x for g in want for x in g], "aggregated values, each once and in order")
        env.check(len(o.intermediate_values) == len(pend), "values still waiting")
    env.refuses(lambda: keep("y", []))


for n, epochs in [(4, True), (3, False)]:
    suite.case(bounds=f"{n} values, every interval up to {n} or none, an epoch ending after any of them", n=n, epochs=epochs)(interval_case)


def composite_case(env):
    """each observer hears exactly the keys it asked for; a composite passes values on; a subject refuses unknown keys and skips absent values"""
    a, b, b2, e, tb = ob.ValueListObserver("a"), ob.ValueListObserver("b"), ob.ValueListObserver("b"), [], ob.TensorBoardScalarObserver("a", "shown/a")
    plain = ob.TensorBoardScalarObserver("b", None)
    c = ob.CompositeObserver([a, b, b2, ob.EpochEndObserver(e.append), tb, plain])
    env.check(sorted(c.get_observing_keys()) == ["a", "b", "epoch_end"], "keys of a composite")

    @tracker.observable(a=torch.Tensor, b=str, epoch_end=int)
    class Subject:
        def __init__(self, w):
            self.w = w

    s = Subject(7)
    env.check(s.w == 7, "a subject is built as before")
    s.add_observers([c, c])
    alone = ob.ValueListObserver("a")
    s.add_observer(alone)
    stranger = ob.ValueListObserver("zzz")
    with env.patch(tracker.logger, "warning", lambda *a: None):
        s.add_observer(stranger)
    w = Writer()
    x, y = env.num("x", -8, 8), env.real("y", 2, lo=-8, hi=8)
    t = env.mk([unwrap(x) if env.sym else x]).reshape(())
    t.requires_grad_(True)
    y.requires_grad_(True)
    z = env.num("z", -8, 8)
    with writing(env, w):
        s.notify_observers(a=t, b="one", epoch_end=3)
        SummaryWriterContext.increase_global_step()
        s.notify_observers(a=y, b=None)
        s.notify_observers(a=None)
        SummaryWriterContext.increase_global_step()
        if not env.sym:
            s.notify_observers(a=z)
    n = 2 if env.sym else 3
    env.check(b.values == ["one"] and b2.values == ["one"] and e == [3] and stranger.values == [], "each value reaches its own observers, once")
    env.check(len(a.values) == n and len(alone.values) == n, "absent values are not passed on")
    for o in (a, alone):
        env.shape(o.values[0], (1,), "a scalar becomes one element")
        env.eq(o.values[0], [x], "value as reported")
        env.eq(o.values[1], env.L(y), "tensor as reported")
        env.check(not o.values[0].requires_grad and not o.values[1].requires_grad, "no graph is kept")
        if not env.sym:
            env.shape(o.values[2], (1,), "a number becomes a tensor")
            env.eq(o.values[2], [z], "number as reported")
    env.check([(q[0], q[1], q[3]) for q in w.told] == [("scalar", "shown/a", 0), ("scalar", "b", 0), ("scalar", "shown/a", 1), ("scalar", "shown/a", 2)][:n + 1], "plots by name and step")
    env.refuses(lambda: s.notify_observers(nobody=1))
    env.refuses(lambda: ob.CompositeObserver([]).update("a", 1), KeyError)
    a.reset()
    env.check(a.values == [], "a list can be emptied")
    s.notify_observers(a=y)
    env.check(len(a.values) == 1, "and filled again")


suite.case(bounds="3 keys, 7 observers")(composite_case)


def chunks(env, name, sizes, *rest, lo=-8, hi=8):
    return [env.real(f"{name}{i}", n, *rest, lo=lo, hi=hi) for i, n in enumerate(sizes)]


def spread(v):
    """(unbiased) variance"""
    m = mean(v)
    return ssum((x - m) * (x - m) for x in v) / (len(v) - 1)


def aggregators_case(env, sizes, A, limit):
    """a mean is over all the values of a group, whatever sizes they came in; per-action functions keep actions apart; recent values keep the latest"""
    acts = [f"act{i}" for i in range(A)]
    m, r = agg.MeanAggregator("x"), agg.RecentValuesAggregator("x", limit)
    f = agg.FunctionsByActionAggregator("v", acts, {"mean": torch.mean, "var": torch.var, "total": torch.sum})
    xs, vs = [chunks(env, f"x{g}", s) for g, s in enumerate(sizes)], [chunks(env, f"v{g}", s, A) for g, s in enumerate(sizes)]
    with env.patch(agg.logger, "info", lambda *a: None):
        for x, v in zip(xs, vs):
            m("x", x)
            r("x", x)
            f("v", v)
    X, V = [[e for t in x for e in env.L(t)] for x in xs], [[row for t in v for row in env.L(t)] for v in vs]
    env.eq(m.values, [mean(x) for x in X], "mean of each group", 1e-4)
    every = [e for x in X for e in x]
    env.check(len(r.values) == min(limit, len(every)), "how many recent values")
    env.eq(list(r.values), every[-limit:], "recent values")
    for i, a in enumerate(acts):
        cols = [[row[i] for row in v] for v in V]
        env.eq(f.values["total"][a], [ssum(c) for c in cols], "total of the action", 1e-4)
        env.eq(f.values["mean"][a], [mean(c) for c in cols], "mean of the action", 1e-4)
        env.close(f.values["var"][a], [spread(c) for c in cols], "variance of the action", 1e-3)
    env.check(set(f.values) == {"mean", "var", "total"} and all(set(d) == set(acts) for d in f.values.values()), "one list per function and action")


suite.case(bounds="3 groups of 1 to 3 batches, 2 actions, 4 recent values", sizes=((2, 1, 1), (3,), (1, 1)), A=2, limit=4)(aggregators_case)
suite.case(tier="thorough", bounds="3 groups of 1 to 4 batches, 3 actions, 7 recent values", sizes=((2, 1, 2, 1), (3,), (1, 1)), A=3, limit=7)(aggregators_case)


def counts_case(env, sizes, A, column):
    """each action is counted apart; the distributions are each group's, and the whole history's, shares"""
    acts = [f"act{i}" for i in range(A)]
    c = agg.ActionCountAggregator("a", acts)
    w = Writer()
    got = []
    with writing(env, w), env.patch(agg.logger, "info", lambda *a: None):
        tb = agg.TensorBoardActionCountAggregator("a", "picked", acts)
        env.check(SummaryWriterContext._custom_scalars == {"actions": {"picked": ["Multiline", [f"actions/picked/{a}" for a in acts]]}}, "chart of the actions")
        for g, s in enumerate(sizes):
            ts = [env.ints(f"a{g}.{i}", *((n, 1) if column else (n,)), lo=0, hi=A - 1) for i, n in enumerate(s)]
            got.append([(e[0] if column else e) for t in ts for e in env.L(t)])
            c("a", ts)
            tb("a", ts)
    n = {a: [ssum(ite(e == i, 1, 0) for e in g) for g in got] for i, a in enumerate(acts)}
    dist, cum = c.get_distributions(), c.get_cumulative_distributions()
    env.check(set(dist) == set(cum) == set(acts) == set(c.values), "one entry per action")
    for a in acts:
        env.eq(c.values[a], n[a], "count of the action")
        env.eq(w.of("scalar", f"actions/picked/{a}"), n[a], "plotted count")
        env.eq(dist[a], [k / len(g) for k, g in zip(n[a], got)], "share of the action", 1e-6)
        env.eq(cum[a], ssum(n[a]) / sum(len(g) for g in got), "share over all groups", 1e-6)


suite.case(bounds="2 groups, 4 actions taken of 3", sizes=((2,), (1, 1)), A=3, column=False)(counts_case)
suite.case(bounds="2 groups, 4 actions taken of 2", sizes=((2, 1), (1,)), A=2, column=True)(counts_case)


def plots_case(env, column):
    """histograms and means are of all the values of a group, per action where there are actions; other shapes are refused"""
    acts = ["left", "right"]
    w = Writer()
    rest = (1,) if column else ()
    x, v = chunks(env, "x", (2, 1), *rest), chunks(env, "v", (2, 1), 2)
    with writing(env, w):
        one = agg.TensorBoardHistogramAndMeanAggregator("x", "shown/x")
        two = agg.TensorBoardActionHistogramAndMeanAggregator("v", "value", "model", acts)
        named = agg.TensorBoardActionHistogramAndMeanAggregator("v", "value", "other", acts, log_key_prefix="pre")
        env.check(SummaryWriterContext._custom_scalars == {"value": {"model": ["Multiline", ["value/model/left/mean", "value/model/right/mean"]], "other": ["Multiline", ["pre/left/mean", "pre/right/mean"]]}}, "charts")
        env.refuses(lambda: agg.TensorBoardActionHistogramAndMeanAggregator("v", "value", "model", acts))
        one("x", x)
        SummaryWriterContext.increase_global_step()
        two("v", v)
        named("v", v)
        env.refuses(lambda: one("x", v))
        env.refuses(lambda: two("v", [v[0][:, :1]]), ValueError)
        env.refuses(lambda: two("v", [v[0][0]]), ValueError)
    X = [e[0] if column else e for t in x for e in env.L(t)]
    flat = lambda t: env.L(t.reshape(-1))
    env.check([(k, t, s) for k, t, _, s in w.told] == [("histogram", "shown/x", 0), ("scalar", "shown/x/mean", 0)] + [
        (k, f"{p}/{a}{m}", 1) for p in ("value/model", "pre") for a in acts for k, m in (("histogram", ""), ("scalar", "/mean"))], "what is plotted, and at which step")
    env.eq(flat(w.told[0][2]), X, "histogram of the values")
    env.eq(flat(w.told[1][2]), [mean(X)], "their mean", 1e-4)
    for p in ("value/model", "pre"):
        for i, a in enumerate(acts):
            col = [row[i] for t in v for row in env.L(t)]
            env.eq(flat(w.of("histogram", f"{p}/{a}")[0]), col, "histogram of the action")
            env.eq(flat(w.of("scalar", f"{p}/{a}/mean")[0]), [mean(col)], "mean of the action", 1e-4)


suite.case(bounds="2 batches of 2 and 1, 2 actions", column=False)(plots_case)
suite.case(bounds="2 batches of 2 and 1, 2 actions", column=True)(plots_case)


@suite.case(bounds="2 writers, any steps up to 3 between calls")
def context_case(env):
    """calls reach the innermost writer with the current step unless they name one; with no writer they do nothing; ignored failures are only logged"""
    a, b = Writer(), Writer()
    C = SummaryWriterContext
    v = env.num("v", -8, 8)
    with writing(env):
        C.add_scalar("lost", v)
        C.anything_at_all(1, two=3)
        want, step = {id(a): [], id(b): []}, 0

        def say(tag, who, **kw):
            nonlocal step
            C.add_scalar(tag, v, **kw)
            want[id(who)].append((tag, kw.get("global_step", step)))
            for i in range(1):
                if env.flag(f"advance.{tag}"):
                    C.increase_global_step()
                    step += 1
        with summary_writer_context(a):
            say("one", a)
            with summary_writer_context(b):
                say("two", b)
                say("named", b, global_step=77)
                with summary_writer_context(None):
                    say("three", b)
            say("four", a)
            env.check(C._global_step == step, "the step is shared")
            try:
                with summary_writer_context(b):
                    raise KeyError("inside")
            except KeyError:
                pass
            say("five", a)
            env.refuses(lambda: C.no_such_call(1), AttributeError)
            env.refuses(lambda: C.push("not a writer"))
            C.add_custom_scalars_multilinechart(["t1", "t2"], category="cat", title="one")
            C.add_custom_scalars_multilinechart(["t3"], category="cat", title="two")
            env.refuses(lambda: C.add_custom_scalars_multilinechart(["t3"], category="cat", title="two"))
            env.refuses(lambda: C.add_custom_scalars_multilinechart(["t3"], category="cat"))
            env.refuses(lambda: C.add_custom_scalars_multilinechart(["t3"], title="two"))
            C.add_custom_scalars(b)
        C.add_scalar("lost again", v)
        for x in (a, b):
            env.check([(t, s) for k, t, _, s in x.told if k == "scalar"] == want[id(x)], "calls of each writer")
            env.eq([q for k, _, q, _ in x.told if k == "scalar"], [v] * len(want[id(x)]), "value as given")
        env.check(b.told[-1][:2] == ("layout", {"cat": {"one": ["Multiline", ["t1", "t2"]], "two": ["Multiline", ["t3"]]}}), "charts are handed over")
        bad = Writer(OSError("full"))
        heard = []
        with summary_writer_context(bad), env.patch(__import__("reagent.tensorboardX").tensorboardX.logger, "warning", lambda *a: None):
            env.refuses(lambda: C.add_scalar("x", v), OSError)
            bad.exceptions_to_ignore = (OSError,)
            C.add_scalar("x", v)
            bad.exception_logging_func = heard.append
            C.add_scalar("x", v)
            env.check(heard == [bad.fail], "ignored failures can be told")
            bad.fail = TypeError("other")
            env.refuses(lambda: C.add_scalar("x", v), TypeError)
            bad.fail = ValueError("no values")
            C.add_histogram("x", v)
            env.refuses(lambda: C.add_scalar("x", v), ValueError)
        C._reset_globals()
        env.check(C._global_step == 0 and C._custom_scalars == {}, "starting over")


def windows_case(env, n, window):
    """averages over a recent window are of its last values only"""
    v = [env.num(f"v{i}", -8, 8) for i in range(n)]
    for f in (report_utils.calculate_recent_window_average, lr.LossReporter.calculate_recent_window_average):
        env.eq(f(v, window, 1), mean(v[-window:]), "recent average", 1e-6)
        pairs = [[x, 2 * x] for x in v]
        got = f(pairs, window, 2)
        env.eq([got[0], got[1]], [mean(v[-window:]), 2 * mean(v[-window:])], "recent averages of pairs", 1e-6)
    with env.patch(lr.logger, "error", lambda *a: None), env.patch(report_utils.logger, "error", lambda *a: None):
        for f in (report_utils.calculate_recent_window_average, lr.LossReporter.calculate_recent_window_average):
            env.check(math.isnan(f([], window, 1)) and len(f([], window, 3)) == 3 and all(math.isnan(x) for x in f([], window, 3)), "nothing to average")
    got = report_utils.get_mean_of_recent_values({"a": v, "b": [2 * x for x in v]}, min_window_size=window)
    k = max(window, math.ceil(0.1 * n))
    env.check(set(got) == {"a", "b"}, "one average per list")
    env.eq([got["a"], got["b"]], [mean(v[-k:]), 2 * mean(v[-k:])], "recent means", 1e-6)


for n, window in [(4, 2), (3, 5), (21, 2)]:
    suite.case(bounds=f"{n} values, windows of {window}", n=n, window=window)(windows_case)


def reporter_keys(kind, acts):
    return {"dqn": lambda: DiscreteDQNReporter(acts, report_interval=2), "crr": lambda: DiscreteCRRReporter(acts, report_interval=2), "pdqn": lambda: ParametricDQNReporter(2),
            "ac": lambda: ActorCriticReporter(2), "slateq": lambda: SlateQReporter(2), "td3": lambda: TD3Reporter(2), "sac": lambda: SACReporter(2)}[kind]()


SCALARS = ["td_loss", "reward_loss"]
COLUMNS = {"dqn": {"logged_rewards": "reward/logged", "logged_propensities": "propensities/logged"}, "pdqn": {"logged_rewards": "reward/logged", "logged_propensities": "propensities/logged"},
           "slateq": {"logged_rewards": "reward/logged"}, "ac": {"logged_rewards": "reward/logged", "logged_propensities": "propensities/logged"}}
COLUMNS["crr"] = {**COLUMNS["dqn"], **{k: "q_value/" + k for k in ("q1_value", "next_q_value", "target_q_value", "actor_q1_value", "q2_value")}}
COLUMNS["td3"] = {**COLUMNS["ac"], **{k: "q_value/" + k for k in ("q1_value", "next_q_value", "target_q_value", "actor_q1_value", "q2_value")}}
COLUMNS["sac"] = {**COLUMNS["ac"], "q1_value": "q1/logged_state_value", "q2_value": "q2/logged_state_value", "log_prob_a": "log_prob_a", "target_state_value": "value_network/target",
                  "next_state_value": "q_network/next_state_value", "target_q_value": "q_network/target_q_value", "actor_output_log_prob": "actor/log_prob",
                  "min_q_actor_value": "actor/min_q_actor_value", "actor_loss": "actor/loss", "action_batch_mean": "kld/mean", "action_batch_var": "kld/var"}
LOSSES = {"crr": {k: "loss/" + k for k in ("q1_loss", "q2_loss", "actor_loss")}, "td3": {k: "loss/" + k for k in ("q1_loss", "q2_loss", "actor_loss")}}
EVERY = {"td3": {k for d in (LOSSES, COLUMNS) for k in d["td3"]} - set(COLUMNS["ac"]), "sac": set(COLUMNS["sac"]) - set(COLUMNS["ac"])}


def reporter_case(env, kind, n, A=2):
    """whatever a trainer reports in an epoch appears once in the reporter's statistics and plots, in groups of the interval (or step by step), under its own name"""
    acts = [f"act{i}" for i in range(A)]
    end = env.inum("end", 0, n - 1)
    w = Writer()
    per_action = kind in ("dqn", "crr")
    logs = []
    quiet = [env.patch(m.logger, "info", lambda *a: None) for m in (agg, ob, __import__("reagent.workflow.reporters.reporter_base", fromlist=["x"]))]
    with writing(env, w), contextlib.ExitStack() as st:
        for q in quiet:
            st.enter_context(q)
        r = reporter_keys(kind, acts)
        if kind == "dqn":
            env.refuses(lambda: reporter_keys(kind, acts))
        for i in range(n):
            kw = {k: env.num(f"{k}{i}", -8, 8) for k in SCALARS + list(LOSSES.get(kind, {}))}
            if kind == "slateq":
                pass
            cols = {k: env.real(f"{k}{i}", 2, 1, lo=-8, hi=8) for k in COLUMNS[kind]}
            if kind in ("pdqn", "ac", "slateq", "td3", "sac"):
                cols["model_values_on_logged_actions"] = env.real(f"mv{i}", 2, 1, lo=-8, hi=8)
            table, picks = {}, {}
            if per_action:
                table = {k: env.real(f"{k}{i}", 2, A, lo=-8, hi=8) for k in ("model_values", "model_propensities", "model_rewards")}
                picks = {k: env.ints(f"{k}{i}", 2, 1, lo=0, hi=A - 1) for k in ("logged_actions", "model_action_idxs")}
            logs.append((kw, {k: [e[0] for e in env.L(t)] for k, t in cols.items()}, {k: env.L(t) for k, t in table.items()}, {k: [e[0] for e in env.L(t)] for k, t in picks.items()}))
            sc = {k: env.mk([unwrap(v) if env.sym else v]).reshape(()) for k, v in kw.items()}
            if i % 2:
                r.log(**sc)
                r.log(**cols, **table, **picks)
            else:
                r.log(**table, **sc, **picks, **cols)
            if i == end:
                r.flush(0)
        r.flush(1)
        if per_action:
            r.log(cpe_details="details")
            env.check(r.cpe_results.values == ["details"], "evaluation results are collected")
        env.refuses(lambda: r.no_such_statistic, AttributeError)
        env.refuses(lambda: r.log(no_such_key=1))
        r.generate_training_report()
    groups, cur = [], []
    for i in range(n):
        cur.append(i)
        if len(cur) == 2 or i == end:
            groups.append(cur)
            cur = []
    groups += [cur] if cur else []
    # an interval counts from the last epoch end
    singles = [[i] for i in range(n)]
    S = lambda k, g: [logs[i][0][k] for i in g]
    Cc = lambda k, g: [e for i in g for e in logs[i][1][k]]
    flat = lambda t: env.L(t.reshape(-1))
    env.eq(r.td_loss.values, [mean(S("td_loss", g)) for g in groups], "mean loss of each group", 1e-4)
    if per_action or kind == "pdqn":
        env.eq(r.reward_loss.values, [mean(S("reward_loss", g)) for g in groups], "mean reward loss of each group", 1e-4)
    env.eq(list(r.recent_rewards.values), Cc("logged_rewards", range(n)), "rewards seen")
    if not per_action:
        a = r.model_values_on_logged_actions if kind == "pdqn" else r.logged_action_q_value
        env.eq(a.values, [mean(Cc("model_values_on_logged_actions", g)) for g in groups], "mean value of the logged actions", 1e-4)
    else:
        env.check(r.last_epoch_end_num_batches == len(groups) and r.num_data_points_per_epoch == len(groups) - len([g for g in groups if g[0] <= end]), "points per epoch")
        for j, act in enumerate(acts):
            col = lambda k, g: [row[j] for i in g for row in logs[i][2][k]]
            env.eq(r.model_values.values["mean"][act], [mean(col("model_values", g)) for g in groups], "mean value of the action", 1e-4)
            for name, key in (("logged_action", "logged_actions"), ("model_action", "model_action_idxs")):
                want = [ssum(ite(e == j, 1, 0) for i in g for e in logs[i][3][key]) for g in groups]
                env.eq(getattr(r, name).values[act], want, "count of the action")
                env.eq(w.of("scalar", f"actions/{name.split('_')[0]}/{act}"), want, "plotted count")
            for key, prefix in (("model_values", "value/model"), ("model_propensities", "propensities/model"), ("model_rewards", "reward/model")):
                for g, h, m in zip(groups, w.of("histogram", f"{prefix}/{act}"), w.of("scalar", f"{prefix}/{act}/mean")):
                    env.eq(flat(h), col(key, g), "histogram of the action")
                    env.eq(flat(m), [mean(col(key, g))], "plotted mean of the action", 1e-4)
                env.check(len(w.of("histogram", f"{prefix}/{act}")) == len(groups) == len(w.of("scalar", f"{prefix}/{act}/mean")), "one plot per group")
    shown = {**{k: k for k in SCALARS}, **COLUMNS[kind], **LOSSES.get(kind, {})}
    for k, tag in shown.items():
        gs = singles if k in EVERY.get(kind, ()) else groups
        hs, ms = w.of("histogram", tag), w.of("scalar", tag + "/mean")
        env.check(len(hs) == len(ms) == len(gs), f"one plot of {k} per group")
        for g, h, m in zip(gs, hs, ms):
            v = Cc(k, g) if k in COLUMNS[kind] else S(k, g)
            env.eq(flat(h), v, f"histogram of {k}")
            env.eq(flat(m), [mean(v)], f"plotted mean of {k}", 1e-4)


for kind in ("dqn", "crr", "pdqn", "ac", "slateq", "td3", "sac"):
    suite.case(bounds="3 batches of 2, groups of 2, an epoch ending after any of them", kind=kind, n=3)(reporter_case)


@suite.case(bounds="2 epochs of up to 3 batches")
def epochs_case(env):
    """a reporter that promises equally long epochs refuses the others"""
    class Fixed(DataPointsPerEpochMixin, ReporterBase):
        def __init__(self):
            super().__init__({}, {"td_loss": ob.IntervalAggregatingObserver(1, agg.MeanAggregator("td_loss"))})

        def generate_training_report(self):
            return None
    rb = __import__("reagent.workflow.reporters.reporter_base", fromlist=["x"])
    with env.patch(agg.logger, "info", lambda *a: None), env.patch(ob.logger, "info", lambda *a: None), env.patch(rb.logger, "info", lambda *a: None):
        r = Fixed()
        a, b = int(env.pick("a", [0, 1, 2, 3])), int(env.pick("b", [0, 1, 2, 3]))
        v = env.real("v", 1, lo=-8, hi=8)
        for _ in range(a):
            r.log(td_loss=v)
        r.flush(0)
        for _ in range(b):
            r.log(td_loss=v)
        if a == b:
            r.flush(1)
        else:
            env.refuses(lambda: r.flush(1))
        env.check(r.num_data_points_per_epoch == a and len(r.td_loss.values) == a + b, "points per epoch")


def dqn_run(env, maxq, bcq, B=2, A=2):
    """one batch of discrete Q-learning; what it says of the batch and of the network's choices"""
    from checks import D01
    b, ai = D01.batch(env, B, A, maxq)
    p = env.real("prop", B, 1, lo=0.125, hi=1)
    b.extras.action_probability = p
    now = env.mask("now", B, A)
    b.possible_actions_mask = now.clone()
    NOW = env.L(now)
    q, qt = env.net("q", A, bound=(-8, 8)), env.net("qt", A, bound=(-8, 8))
    im = env.net("im", A, bound=(-4, 4)) if bcq is not None else None
    if im:
        for x in (b.state, b.next_state):
            for row, m in zip(env.L(im(x.float_features)), NOW if x is b.state else env.L(b.possible_next_actions_mask)):
                e = [sexp(v) for v in row]
                env.assume(sand(*[sor(v > bcq * smax(*e) + 1e-3, v < bcq * smax(*e) - 1e-3) for v in e]))
                if maxq and x is b.next_state:
                    env.assume(sor(*[sand(k == 1, v >= bcq * smax(*e)) for k, v in zip(m, e)]))
                if maxq and x is b.state:
                    for j in range(A):
                        m[j] = ite(sand(m[j] == 1, e[j] >= bcq * smax(*e)), 1, 0)
    for i in range(B):
        env.assume(sor(*[m == 1 for m in NOW[i]]))
    rep = common.Reporter()
    tr = DQNTrainer(q, qt, None, actions=[str(i) for i in range(A)], evaluation=EvaluationParameters(calc_cpe_in_training=False), double_q_learning=False, imitator=im,
                    bcq=BCQConfig(drop_threshold=bcq) if bcq is not None else None, rl=RLParameters(gamma=0.5, maxq_learning=maxq, temperature=1.0))
    drive(prepare(tr, rep), b)
    t = rep.logged
    Q = env.L(q(b.state))
    env.eq(t["logged_actions"], [[x] for x in ai], "reported logged actions")
    env.eq(t["logged_rewards"], env.L(b.reward), "reported rewards")
    env.eq(t["logged_propensities"], env.L(p), "reported propensities")
    env.eq(t["model_values"], Q, "reported values")
    for i in range(B):
        if maxq:
            best = smax(*[ite(NOW[i][j] == 1, Q[i][j], -1000) for j in range(A)])
            env.assume(sand(*[sor(NOW[i][j] == 0, Q[i][j] == best, Q[i][j] < best - 1e-3) for j in range(A)]))
            env.assume(sor(Q[i][0] < Q[i][1] - 1e-3, Q[i][0] > Q[i][1] + 1e-3))
            env.eq(t["model_action_idxs"][i], [ite(sand(NOW[i][0] == 1, Q[i][0] == best), 0, 1)], "reported choice of the network")
        else:
            env.eq(t["model_action_idxs"][i], [ai[i]], "reported choice of the network")


def wired_case(env, which):
    """what a trainer reports while learning from one batch is accepted by its reporter, which then holds that batch's statistics"""
    w = Writer()
    from checks import D01, D04, D05, D06, D07, D08, D09, D10
    acts2 = ["0", "1"]
    make, run = {
        "dqn": (lambda: DiscreteDQNReporter(acts2, report_interval=1), lambda: dqn_run(env, True, None)),
        "dqn_sarsa": (lambda: DiscreteDQNReporter(acts2, report_interval=1), lambda: dqn_run(env, False, None)),
        "dqn_bcq": (lambda: DiscreteDQNReporter(acts2, report_interval=1), lambda: dqn_run(env, True, 0.25)),
        "dqn_bcq_sarsa": (lambda: DiscreteDQNReporter(acts2, report_interval=1), lambda: dqn_run(env, False, 0.25)),
        "c51": (lambda: DiscreteDQNReporter(["0"], report_interval=1), lambda: D05.c51_case(env, 1, 1, 2, -2, 2, True, False)),
        "qrdqn": (lambda: DiscreteDQNReporter(["0"], report_interval=1), lambda: D06.qr_case(env, 1, 1, 1, True, False)),
        "qrdqn_cpe": (lambda: DiscreteDQNReporter(acts2, report_interval=1), lambda: D06.qr_case(env, 1, 2, 1, False, False, cpe=True)),
        "pdqn": (lambda: ParametricDQNReporter(1), lambda: D04.target_case(env, 2, 1, False, False)),
        "sac": (lambda: SACReporter(1), lambda: D07.sac_case(env, 1, alpha=True, temp=1.0)),
        "sac_value": (lambda: SACReporter(1), lambda: D07.sac_case(env, 1, value=True)),
        "sac_kld": (lambda: SACReporter(1), lambda: D07.sac_case(env, 2, kld="action")),
        "td3": (lambda: TD3Reporter(1), lambda: D08.td3_case(env, 2)),
        "crr": (lambda: DiscreteCRRReporter(acts2, report_interval=1), lambda: D09.crr_case(env, 1, 2)),
        "slateq": (lambda: SlateQReporter(1), lambda: D10.slateq_case(env, 1, 2, 1, True))}[which]
    rb = __import__("reagent.workflow.reporters.reporter_base", fromlist=["x"])
    told = {}
    with writing(env, w), env.patch(agg.logger, "info", lambda *a: None), env.patch(ob.logger, "info", lambda *a: None), env.patch(rb.logger, "info", lambda *a: None):
        with env.patch(torch, "std", lambda v, dim: v.sum(dim)):  # the spread of a single row is undefined
            r = make()

        class Tee(common.Reporter):
            def log(self, **kw):
                super().log(**kw)
                told.update(kw)
                r.log(**kw)
        with env.patch(common, "Reporter", Tee):
            run()
        r.flush(0)
    if which == "slateq":
        env.check("logged_rewards" not in told, "slate rewards are not reported")
    env.check(told.get("td_loss" if which != "td3" else "q1_loss") is not None, "the loss is reported")
    flat = lambda t: env.L(t.reshape(-1))
    env.eq(r.td_loss.values, [mean(flat(told["td_loss"]))] if which != "td3" else [], "mean loss")
    if "logged_rewards" in told:
        env.eq(list(r.recent_rewards.values), flat(told["logged_rewards"]), "rewards seen")
    for k, v in told.items():
        if v is None or not isinstance(v, torch.Tensor):
            continue
        if f"{k}_tb" in r._aggregating_observers:
            env.check(bool(w.told), "plots")
    env.check(all(k in r.get_observing_keys() for k, v in told.items() if v is not None), "every reported key is known")


for which in ("dqn", "dqn_sarsa", "dqn_bcq", "dqn_bcq_sarsa", "c51", "qrdqn", "qrdqn_cpe", "pdqn", "sac", "sac_value", "sac_kld", "td3", "crr", "slateq"):
    suite.case(bounds="1 or 2 transitions", which=which)(wired_case)


@contextlib.contextmanager
def numbers(env):
    """Python's float() and isnan() of symbolic numbers"""
    if not env.sym:
        yield
        return
    with env.patch(lr, "float", lambda x=0.0: x if isinstance(x, S) else (x.item() if hasattr(x, "item") else float(x))), \
            env.patch(lr, "math", types.SimpleNamespace(isnan=lambda x: (not isinstance(x, S)) and math.isnan(x))):
        yield


FIELDS = [("td_loss", "td_loss"), ("imitator_loss", "imitator_loss"), ("reward_loss", "reward_loss"), ("logged_propensities", "propensities/logged"), ("logged_rewards", "reward/logged"),
          ("logged_values", "value/logged"), ("model_values_on_logged_actions", "value/model_logged_action")]
TABLES = [("model_propensities", "propensities/model"), ("model_rewards", "reward/model"), ("model_values", "value/model")]


def losses_case(env, n, A, absent):
    """a loss report covers the batches since the last one: means, counts, shares, and the same under their names on the board"""
    acts = [f"act{i}" for i in range(A)]
    w = Writer()
    quiet = env.patch(lr.logger, "info", lambda *a: None)
    nogrouping = env.patch(lr, "LOSS_REPORT_INTERVAL", 2)
    with writing(env, w), quiet, nogrouping, numbers(env):
        r = lr.LossReporter(acts or None)
        if acts:
            env.check({c: set(t) for c, t in SummaryWriterContext._custom_scalars.items()} == {"propensities": {"model", "logged"}, "actions": {"model", "logged"}}, "charts")
        env.check(r.num_batches == 0, "nothing yet")
        r.flush()
        logs = []
        end = env.inum("end", 0, n - 1)
        marks = [0]
        for i in range(n):
            kw = {}
            for k, _ in FIELDS:
                if k not in absent:
                    kw[k] = env.real(f"{k}{i}", 1, lo=-8, hi=8).reshape(()) if k.endswith("loss") else env.real(f"{k}{i}", 2, 1, lo=-8, hi=8)
            for k, _ in TABLES:
                if k not in absent:
                    kw[k] = env.real(f"{k}{i}", 2, *([A] if A else []), lo=-8, hi=8)
            if A and "picks" not in absent:
                kw["logged_actions"], kw["model_action_idxs"] = env.ints(f"la{i}", 2, 1, lo=0, hi=A - 1), env.ints(f"ma{i}", 2, 1, lo=0, hi=A - 1)
            logs.append({k: env.L(v.reshape(1)) if not v.shape else [e[0] if isinstance(e, list) and len(e) == 1 and k not in dict(TABLES) else e for e in env.L(v)] for k, v in kw.items()})
            r.report(**{k: v.requires_grad_(True) if v.dtype.is_floating_point else v for k, v in kw.items()}, **{k: None for k in absent if k != "picks"})
            if i == end:
                r.flush()
        r.flush()
        r.log_to_tensorboard(41)
    groups, cur = [], []
    for i in range(n):
        cur.append(i)
        if len(cur) == 2 or i == end:
            groups.append(cur)
            cur = []
    groups += [cur] if cur else []
    col = lambda k, g: [e for i in g for e in logs[i][k]]
    flat = lambda t: env.L(t.reshape(-1))
    env.check(r.num_batches == len(groups) and not r.incoming_stats, "one report per group")
    for k in ("td_loss", "reward_loss", "imitator_loss"):
        want = [mean(col(k, g)) for g in groups] if k not in absent else []
        env.eq(getattr(r, k), want, f"mean {k}", 1e-4)
        recent = getattr(r, f"get_recent_{k}")() if want else 0
        env.eq([recent], [mean(want) if want else 0], f"recent {k}", 1e-4)
        env.eq(w.of("scalar", f"Training/{k}"), [mean(want) if want else 0], f"{k} on the board", 1e-4)
    env.check([t[3] for t in w.told if t[1].startswith("Training/")] == [41] * 3, "plotted at the epoch given")
    env.eq(r.get_td_loss_after_n(1), [mean(col("td_loss", g)) for g in groups[1:]], "losses after the first", 1e-4)
    env.eq(list(r.get_recent_rewards()), col("logged_rewards", range(n)) if "logged_rewards" not in absent else [], "rewards seen")
    if "model_values_on_logged_actions" not in absent:
        env.eq(r.logged_action_q_value, [mean(col("model_values_on_logged_actions", g)) for g in groups], "mean value of the logged actions", 1e-4)
    for k, tag in FIELDS + ([] if A else TABLES):
        if k in absent:
            env.check(not w.of("histogram", tag), "nothing plotted for what was not reported")
            continue
        hs, ms = w.of("histogram", tag), w.of("scalar", tag + "/mean")
        env.check(len(hs) == len(ms) == len(groups), f"one plot of {k} per group")
        for g, h, m in zip(groups, hs, ms):
            env.check(not getattr(h, "requires_grad", False), "what is plotted holds on to no gradient")
            env.eq(flat(h), col(k, g), f"histogram of {k}")
            env.eq(flat(m), [mean(col(k, g))], f"plotted mean of {k}", 1e-4)
    if A:
        for j, act in enumerate(acts):
            for k, tag in TABLES:
                if k in absent:
                    continue
                hs, ms = w.of("histogram", f"{tag}/{act}"), w.of("scalar", f"{tag}/{act}/mean")
                env.check(len(hs) == len(ms) == len(groups), f"one plot of {k} per group")
                for g, h, m in zip(groups, hs, ms):
                    env.eq(flat(h), [row[j] for row in col(k, g)], f"histogram of {k}")
                    env.eq(flat(m), [mean([row[j] for row in col(k, g)])], f"plotted mean of {k}", 1e-4)
            if "model_values" not in absent:
                cols = [[row[j] for row in col("model_values", g)] for g in groups]
                env.eq(r.model_values.stats[act], [mean(c) for c in cols], "mean value of the action", 1e-4)
                sq = [s * s for s in r.model_value_stds.stats[act]]
                env.close(sq, [spread(c) for c in cols], "squared spread of the action", 1e-2)
            if "picks" not in absent:
                la, ma = ([ssum(ite(e == j, 1, 0) for e in col(k, g)) for g in groups] for k in ("logged_actions", "model_action_idxs"))
                env.eq(w.of("scalar", f"actions/logged/{act}"), la, "plotted count of the action")
                env.eq(w.of("scalar", f"actions/model/{act}"), ma, "plotted count of the chosen action")
                env.eq(r.model_action_counts.stats[act], ma, "count of the chosen action")
                env.eq(r.model_action_distr.stats[act], [c / (2 * len(g)) for c, g in zip(ma, groups)], "share of the chosen action", 1e-6)
                env.eq(r.get_logged_action_distribution()[act], ssum(la) / (2 * n), "share of the action overall", 1e-6)
                env.eq(r.get_model_action_distribution()[act], ssum(ma) / (2 * n), "share of the chosen action overall", 1e-6)


suite.case(bounds="3 batches of 2, 2 actions, reports every 2 and after any batch", n=3, A=2, absent=())(losses_case)
suite.case(bounds="3 batches of 2, 2 actions, reports every 2 and after any batch", n=3, A=2, absent=("imitator_loss", "logged_rewards", "model_values", "picks"))(losses_case)
suite.case(bounds="3 batches of 2, no actions, reports every 2 and after any batch", n=3, A=0, absent=("reward_loss", "logged_values", "model_propensities"))(losses_case)


@suite.case(bounds="2 actions")
def by_action_case(env):
    """statistics by action are zero where none is given, and refuse other actions"""
    s = lr.StatsByAction(["a", "b"])
    x, y = env.num("x", -8, 8), env.real("y", 1, lo=-8, hi=8)
    s.append({"a": x})
    s.append({"b": y, "a": x})
    s.append({})
    env.check(len(s) == 2 and [k for k, _ in s.items()] == ["a", "b"], "one list per action")
    env.eq(s.stats["a"], [x, x, 0], "first action")
    env.eq(s.stats["b"], [0, env.L(y)[0], 0], "second action")
    env.refuses(lambda: s.append({"c": 1}))
    stats = lr.BatchStats(model_values=torch.zeros(2, 3))
    with writing(env, Writer()):
        env.refuses(lambda: stats.write_summary(["a", "b"]), ValueError)
        env.refuses(lambda: stats.write_summary([]), ValueError)
        env.refuses(lambda: lr.BatchStats(td_loss=torch.zeros(2, 3)).write_summary([]))
    env.refuses(lambda: lr.merge_tensor_namedtuple_list([lr.BatchStats(td_loss=torch.zeros(1)), lr.BatchStats()], lr.BatchStats))
    env.refuses(lambda: lr.LossReporter([]))
    lr.NoOpLossReporter().report(anything=1)
    lr.NoOpLossReporter().flush()


class Module(ReAgentLightningModule):
    """k losses for k optimizers"""

    def __init__(self, k, extra=0):
        super().__init__()
        self.k, self.extra, self.seen = k, extra, []

    def configure_optimizers(self):
        return [object()] * self.k

    def train_step_gen(self, training_batch: rlt.PolicyNetworkInput, batch_idx: int):
        for i in range(self.k + self.extra):
            self.seen.append((training_batch, batch_idx))
            yield (batch_idx, i)


def protocol_case(env, k):
    """each batch yields one loss per optimizer and then advances the step; a module with too many losses is refused; epochs end when told"""
    m = Module(k)
    flushed = []
    rep = types.SimpleNamespace(flush=flushed.append)
    m.set_reporter(rep)
    env.check(m.reporter is rep, "the reporter is the one set")
    m.set_reporter(None)
    m.reporter.anything(1)
    m.set_reporter(rep)
    with writing(env):
        for b in range(3):
            for i in range(k):
                env.check(m.training_step("batch", b, i) == (b, i) and m.seen[-1] == ("batch", b), "losses in order")
            env.check(SummaryWriterContext._global_step == b + 1, "one step per batch")
        bad = Module(k, extra=1)
        for i in range(k - 1):
            bad.training_step("batch", 0, i)
        env.refuses(lambda: bad.training_step("batch", 0, k - 1), RuntimeError)
    ran, n = env.inum("ran", 0, 3), env.inum("n", 0, 3)
    asked = StoppingEpochCallback(n)
    with env.patch(__import__("reagent.training.reagent_lightning_module", fromlist=["x"]).logger, "info", lambda *a: None):
        asked.on_pretrain_routine_end(None, m)
        last = -1 + n
        env.eq([m._next_stopping_epoch.item()], [last], "epoch to stop after")
        env.check(not bool(m._cleanly_stopped.item()), "running")
        asked.on_pretrain_routine_end(None, m)
        env.eq([m._next_stopping_epoch.item()], [last], "an interrupted run goes on to the same epoch")
        m._cleanly_stopped[0] = True
        asked.on_pretrain_routine_end(None, m)
        env.eq([m._next_stopping_epoch.item()], [last + n], "the next run adds its own epochs")
    m.trainer = types.SimpleNamespace(should_stop=False, current_epoch=ran)
    m.training_epoch_end([])
    env.check(len(flushed) == 1, "the reporter is flushed at the end of an epoch")
    env.eq([flushed[0]], [ran], "with its number")
    env.check(bool(m.trainer.should_stop) == bool(ran == last + n), "stopping exactly there")


suite.case(bounds="3 batches, 1 loss, up to 3 epochs at a time", k=1)(protocol_case)
suite.case(bounds="3 batches, 3 losses, up to 3 epochs at a time", k=3)(protocol_case)


@suite.case(bounds="5 arrangements of loggers")
def board_case(env):
    """a module's summary writer is its TensorBoard logger's, wherever that is, and follows it"""
    from pytorch_lightning.loggers.base import LoggerCollection
    from pytorch_lightning.loggers import TensorBoardLogger, CSVLogger

    def board(w):
        t = TensorBoardLogger.__new__(TensorBoardLogger)
        t._experiment = w
        return t
    other = CSVLogger.__new__(CSVLogger)
    m = Module(1)
    wa, wb = Writer(), Writer()
    a, b = board(wa), board(wb)
    with env.patch(TensorBoardLogger, "experiment", property(lambda s: s._experiment)):
        at = {"none": (None, None), "one": (a, wa), "other": (other, None), "first of two": (LoggerCollection([a, b]), wa), "second": (LoggerCollection([other, b]), wb), "no board": (LoggerCollection([other]), None)}
        first, second = env.pick("first", list(at)), env.pick("second", list(at))
        for k in (first, second, second, first):
            logger, want = at[k]
            m.logger = logger
            env.check(m.summary_writer is want, f"writer with {k}")
