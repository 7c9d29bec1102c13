"""Tabular reinforcement learning (dynamic programming, Monte Carlo) and the regression trainers behind the direct methods."""
import os
import tempfile
import types
import numpy as np
from reagent.ope.estimators.sequential_estimators import RewardProbability, RLPolicy, State, Transition
from reagent.ope.estimators.types import Action, ActionSpace, TrainingData
from reagent.ope.trainers import linear_trainers as lt, rl_tabular_trainers as tab
from checks.common import *
from checks.D21 import dot, mean
from checks.D23 import Math, ope_env

suite = Suite("D28", ["transition probabilities are listed numbers; rewards lie in [-8, 8]; the discount is one of the listed numbers", "generated episodes come from listed paths with arbitrary rewards",
                      "fitted regressors are arbitrary functions with arbitrary scores"])


class World:
    """model: {(state, action): [(next state, probability)]} with arbitrary rewards"""

    def __init__(self, env, model, states, ends=()):
        self.made = {}
        self.S = {s: State(s, s in ends) for s in set(states) | {n for o in model.values() for n, _ in o if n is not None}}
        self.order = states
        self.r = {(s, a, n): env.num(f"r{s}{a}{n}", -8, 8) for (s, a), o in model.items() for n, _ in o}
        self.model = model

    states = property(lambda self: [self.S[s] for s in self.order])

    def state(self, s):
        return None if s is None else self.S[s]

    def __call__(self, s, a):
        return {self.state(n): RewardProbability(self.r[s.value, a.value, n], p) for n, p in self.model[s.value, a.value]}

    next_state_reward_dist = __call__

    def back(self, s, a, v, gamma):
        return ssum(p * (self.r[s, a, n] + gamma * v(n)) for n, p in self.model[s, a])


CHAIN = {("a", 0): [("b", 1.0)], ("a", 1): [("b", 0.25), ("c", 0.75)], ("b", 0): [("c", 1.0)], ("b", 1): [(None, 0.5), ("c", 0.5)], ("c", 0): [("end", 1.0)], ("c", 1): [(None, 1.0)]}
LOOP = {("a", 0): [("b", 1.0)], ("a", 1): [("a", 0.5), ("b", 0.5)], ("b", 0): [("a", 1.0)], ("b", 1): [("end", 0.25), ("b", 0.75)]}
WORLDS = dict(chain=(CHAIN, ["c", "b", "a"]), forward=(CHAIN, ["a", "b", "c"]), loop=(LOOP, ["a", "b"]))


def table_policy(env, world, rows, eps=0.0):
    pol = tab.TabularPolicy(ActionSpace(2), eps)
    for s, row in rows.items():
        pol.update(world.S[s], list(row))
    return pol


def smax2(a, b):
    return ite(a >= b, a, b)


def policy_case(env, a, eps):
    """the table, mixed with the uniform distribution; unknown states are uniform; saving and loading restores the policy"""
    row = [env.num(f"p{j}", 0, 1) for j in range(a)]
    other = [env.num(f"o{j}", 0, 1) for j in range(a)]
    with ope_env(env):
        pol = tab.TabularPolicy(ActionSpace(a), eps)
        s, t = State("s"), State("t")
        probs = lambda p, st: [p(st)[Action(j)] for j in range(a)]
        env.close(probs(pol, s), [1 / a] * a, "uniform where nothing is known", 1e-6)
        change = pol.update(s, list(row))
        env.close([change * change], [ssum((x - 1 / a) * (x - 1 / a) for x in row)], "size of the first change", 1e-4)
        env.close(probs(pol, s), [(1 - eps) * x + eps / a for x in row], "mixture", 1e-5)
        env.close(probs(pol, t), [1 / a] * a, "another state is still unknown", 1e-6)
        change = pol.update(s, list(other))
        env.close([change * change], [ssum((x - y) * (x - y) for x, y in zip(row, other))], "size of a change", 1e-4)
        env.close(probs(pol, s), [(1 - eps) * x + eps / a for x in other], "mixture", 1e-5)
        with tempfile.TemporaryDirectory() as d:
            real = [0.25] + [0.75 / (a - 1)] * (a - 1)
            pol = tab.TabularPolicy(ActionSpace(a), eps)
            pol.update(s, real)
            env.check(pol.save(os.path.join(d, "p")) is True, "saved")
            back = tab.TabularPolicy(ActionSpace(a + 1), eps / 2 + 0.25)
            env.check(back.load(os.path.join(d, "missing")) is False, "nothing to load")
            env.check(back.load(os.path.join(d, "p")) is True, "loaded")
            env.check(len(back.action_space) == a, "action space")
            env.close(probs(back, s), [(1 - eps) * x + eps / a for x in real], "mixture after loading", 1e-5)
            env.close(probs(back, t), [1 / a] * a, "uniform after loading", 1e-6)


suite.case(bounds="3 actions, exploring", a=3, eps=0.25)(policy_case)
suite.case(bounds="2 actions, never exploring", a=2, eps=0.0)(policy_case)


def dp_case(env, world, gamma, threshold, eps, exact):
    """values satisfy the policy's Bellman equation, up to the threshold"""
    model, order = WORLDS[world]
    w = World(env, model, order, ends=("end",))
    rows = {s: (env.pick(f"pi{s}", [0.25, 1.0]),) for s in order}
    rows = {s: (p, 1 - p) for s, (p,) in rows.items()}
    with ope_env(env), env.patch(tab, "max", smax2), env.patch(tab, "abs", sabs), env.patch(tab, "float", lambda x: float(x) if isinstance(x, str) else x):
        pol = table_policy(env, w, rows, eps)
        f = tab.DPValueFunction(pol, w, gamma, threshold)
        for again in range(2):
            V = {s: f(w.S[s]) for s in order}
            v = lambda s: 0 if s is None or s == "end" else V[s]
            for s in order:
                pi = [(1 - eps) * p + eps / 2 for p in rows[s]]
                want = ssum(pi[a] * w.back(s, a, v, gamma) for a in range(2))
                if exact:
                    env.close([V[s]], [want], "value of a state", 1e-3)
                else:
                    env.check(sabs(V[s] - want) <= gamma * threshold + 1e-4, "value of a state, up to the threshold")
                for a in range(2):
                    env.close([f(w.S[s], Action(a))], [w.back(s, a, v, gamma)], "value of an action", 1e-3)
            env.eq([f.state_value(State("end", True)), f._state_value(None)], [0, 0], "nothing after the end")
            f.reset(clear_state_values=again == 0)


suite.case(bounds="3 states, no cycle, last state first", world="chain", gamma=0.5, threshold=0.001, eps=0.0, exact=True)(dp_case)
suite.case(bounds="3 states, no cycle, first state first, exploring", world="forward", gamma=0.75, threshold=0.001, eps=0.25, exact=True)(dp_case)
suite.case(bounds="2 states in a cycle", world="loop", gamma=0.5, threshold=2.0, eps=0.0, exact=False)(dp_case)


def dp_train_case(env, world, gamma, eps):
    """the trained policy is greedy for its own value function"""
    model, order = WORLDS[world]
    w = World(env, model, order, ends=("end",))
    with ope_env(env), env.patch(tab, "max", smax2), env.patch(tab, "abs", sabs), env.patch(tab, "float", lambda x: float(x) if isinstance(x, str) else x):
        pol = tab.TabularPolicy(ActionSpace(2), eps)
        f = tab.DPTrainer(w, pol).train(gamma, 0.001)
        V = {s: f(w.S[s]) for s in order}
        dist = {s: [pol(w.S[s])[Action(a)] for a in range(2)] for s in order}
    v = lambda s: 0 if s is None or s == "end" else V[s]
    for s in order:
        q = [w.back(s, a, v, gamma) for a in range(2)]
        env.close([ssum(dist[s])], [1], "a distribution", 1e-6)
        for a in range(2):
            env.check(sor(dist[s][a] <= eps / 2 + 1e-9, q[a] >= q[1 - a] - 1e-2), "only best actions are exploited")
            env.check(dist[s][a] >= eps / 2 - 1e-9, "every action is explored")
        env.close([V[s]], [ssum(d * x for d, x in zip(dist[s], q))], "value of the trained policy", 1e-2)


CH2 = {("a", 0): [("b", 1.0)], ("a", 1): [("b", 0.25), (None, 0.75)], ("b", 0): [("end", 1.0)], ("b", 1): [(None, 1.0)]}
WORLDS["short"] = (CH2, ["b", "a"])
suite.case(bounds="2 states, no cycle", world="short", gamma=0.5, eps=0.0)(dp_train_case)
suite.case(bounds="2 states, no cycle, exploring", world="short", gamma=0.75, eps=0.25)(dp_train_case)


# ------------------------------------------------------------------ Monte Carlo
def paths_generator(env, spec, made):
    """the i-th episode follows the i-th listed path; rewards are arbitrary"""
    it = iter(spec)

    class Gen:
        def __init__(self, world, policy):
            pass

        def generate_log(self, state, max_horizon=-1):
            path = next(it)
            i = len(made)
            ep = [types.SimpleNamespace(s=s, a=a, r=env.num(f"r{i}_{t}", -8, 8)) for t, (s, a) in enumerate(path)]
            made.append((state, ep))
            return [Transition(last_state=None if e.s is None else State(e.s), action=None if e.a is None else Action(e.a), action_prob=0.5, state=State("x"), reward=e.r) for e in ep]

    return Gen


def returns(ep, gamma):
    out, g = [None] * len(ep), 0
    for t in range(len(ep) - 1, -1, -1):
        if ep[t].s is None:
            continue
        g = gamma * g + ep[t].r
        out[t] = g
    return out


PATHS = [[("a", 0), ("b", 1), ("a", 0), ("c", 0)], [("b", 0), ("b", 1), ("a", 1)], [("a", 1)], [("c", 0), ("a", 1), ("c", 1)]]


def collect(eps, gamma, first, key):
    got = {}
    for _, ep in eps:
        seen = set()
        for t, g in enumerate(returns(ep, gamma)):
            if g is None:
                continue
            k = key(ep[t])
            if first and k in seen:
                continue
            seen.add(k)
            got.setdefault(k, []).append(g)
    return got


def mc_case(env, first, gamma, count, paths):
    """a state's value is the mean return from its (first) visits, over as many episodes as asked for"""
    made = []
    with ope_env(env), env.patch(tab, "PolicyLogGenerator", paths_generator(env, paths, made)):
        f = tab.MonteCarloValueFunction(tab.TabularPolicy(ActionSpace(2)), None, gamma, first, count, len(paths))
        v = f(State("a"))
        want = collect(made, gamma, first, lambda e: e.s)
        env.close([v], [mean(want.get("a", [0]))], "mean return", 1e-3)
        env.check(len(want.get("a", [])) >= count or len(made) == len(paths), "enough visits")
        enough = [len(collect(made[:k], gamma, first, lambda e: e.s).get("a", [])) >= count for k in range(len(made))]
        env.check(not any(enough), "no more episodes than needed")
        env.check(all(s == State("a") for s, _ in made), "episodes start in the state")
        n = len(made)
        for s in want:
            if len(want[s]) >= count:
                env.close([f.state_value(State(s))], [mean(want[s])], "mean return of a state met on the way", 1e-3)
        env.check(len(made) == n, "known states need no more episodes")


for fv in (False, True):
    suite.case(bounds="up to 4 episodes", first=fv, gamma=0.5, count=2, paths=PATHS)(mc_case)
    suite.case(bounds="up to 4 episodes, more visits than there are", first=fv, gamma=0.75, count=9, paths=PATHS)(mc_case)
suite.case(bounds="up to 3 episodes, some steps without a state", first=True, gamma=0.5, count=2, paths=[[("a", 0), (None, None), ("b", 0)], [("b", 1), ("a", 0)], [("a", 1)]])(mc_case)


def mc_train_case(env, first, gamma, iterations, interval):
    """action values are mean returns from (first) visits; the policy is updated at the stated interval"""
    made, seen = [], []
    w = types.SimpleNamespace(states=[State("a"), State("b")])
    with ope_env(env), env.patch(tab, "PolicyLogGenerator", paths_generator(env, PATHS, made)):
        tr = tab.MonteCarloTrainer(w, tab.TabularPolicy(ActionSpace(2)))
        tr._update_policy = lambda counts: seen.append((len(made), dict(counts))) or False
        tr.train(iterations, gamma, first, interval)
    env.check([n for n, _ in seen] == [2 * i for i in range(1, iterations + 1) if i % interval == 0], "updates at the interval")
    env.check([s.value for s, _ in made] == ["a", "b"] * iterations, "an episode from each state in turn")
    for n, counts in seen:
        want = collect(made[:n], gamma, first, lambda e: (e.s, e.a))
        env.check({(s.value, a.value) for s, a in counts} == set(want), "visited pairs")
        for (s, a), (v, c) in counts.items():
            env.check(c == len(want[s.value, a.value]), "visits")
            env.close([v], [mean(want[s.value, a.value])], "mean return of a pair", 1e-3)


for fv in (False, True):
    suite.case(bounds="4 episodes, 2 updates", first=fv, gamma=0.5, iterations=2, interval=1)(mc_train_case)
suite.case(bounds="4 episodes, 1 update", first=True, gamma=0.75, iterations=2, interval=2)(mc_train_case)


def estimated_case(env, gamma, episodes):
    made = []
    w = types.SimpleNamespace(states=[State("a"), State("b")])
    with ope_env(env), env.patch(tab, "PolicyLogGenerator", paths_generator(env, PATHS, made)):
        f = tab.EstimatedStateValueFunction(tab.TabularPolicy(ActionSpace(2)), w, gamma, episodes)
        for s in w.states:
            env.close([f(s)], [mean([returns(ep, gamma)[0] for st, ep in made if st == s])], "mean discounted return", 1e-3)
    env.check([s.value for s, _ in made].count("a") == episodes and len(made) == 2 * episodes, "episodes of each state")


suite.case(bounds="2 states, 2 episodes each", gamma=0.5, episodes=2)(estimated_case)


# ------------------------------------------------------------------ regression trainers
def fit_stub(env, log, classes):
    class Fit:
        def __init__(self, *args, **kw):
            self.kw, self.i = kw, len(log)
            log.append(self)

        def fit(self, x, y, w=None):
            self.data = (x, y, w)
            return self

        def _f(self, row, n):
            return [wrap(o) for o in env.net_eval(f"fit{self.i}_{n}", [unwrap(v) if env.sym else float(v) for v in row], n, -2 if n == 1 else 0, 2)]

        def predict(self, x):
            rows = env.rows(x) if isinstance(x, torch.Tensor) else [list(r) for r in x]
            return np.array([self._f(r, 1)[0] for r in rows], dtype=object if env.sym else float)

        def score(self, x, y, w=None):
            self.scored = (x, y, w)
            self.mark = env.num(f"score{self.i}", -2, 2)
            return self.mark

    class Proba(Fit):
        def predict_proba(self, x):
            rows = env.rows(x) if isinstance(x, torch.Tensor) else [list(r) for r in x]
            return np.array([self._f(r, classes) for r in rows], dtype=object if env.sym else float)

    return Proba if classes else Fit


def same(env, got, want, label):
    if want is None:
        env.check(got is None, label)
    else:
        flat = lambda v: [x for r in v for x in (flat(r) if isinstance(r, (list, np.ndarray)) else [r])]
        env.eq(flat(got), flat(env.L(want)), label)


def select_case(env, kind, n, iterations):
    """of all fitted candidates, the one that does best on the validation data is kept"""
    x, y = env.real("x", n, 2, lo=-2, hi=2), env.real("y", n, lo=-2, hi=2)
    vx, vy = env.real("vx", n, 2, lo=-2, hi=2), env.real("vy", n, lo=-2, hi=2)
    sw, vw = env.real("sw", n, lo=0.25, hi=1), env.real("vw", n, lo=0.25, hi=1)
    log, seen, errs = [], [], []
    names = dict(lasso=("LassoTrainer", "Lasso", 7), tree=("DecisionTreeTrainer", "DecisionTreeRegressor", 6), treec=("DecisionTreeClassifierTrainer", "DecisionTreeClassifier", 6),
                 logistic=("LogisticRegressionTrainer", "LogisticRegression", 10), sgd=("SGDClassifierTrainer", "SGDClassifier", 8))
    cls, base, many = names[kind]
    regress = kind in ("lasso", "tree")

    def mse(t, p, sample_weight=None):
        seen.append((t, list(p), sample_weight, len(log) - 1))
        errs.append(env.num(f"mse{len(seen) - 1}", 0, 4))
        return errs[-1]

    with ope_env(env), env.patch(lt, base, fit_stub(env, log, 0 if regress else 2)), env.patch(lt, "mean_squared_error", mse):
        tr = getattr(lt, cls)()
        if regress:
            tr._score = lambda yt, yp, weight=None: -mse(yt, yp, weight)
        env.check(not tr.is_trained, "not trained yet")
        tr.train(TrainingData(x, y, sw, vx, vy, vw), iterations)
        env.check(tr.is_trained, "trained")
        extra = 1 if kind == "tree" else 0
        env.check(len(log) == many * iterations + extra, "every candidate is fitted")
        for m in log:
            same(env, m.data[0], x, "training inputs")
            same(env, m.data[1], y, "training targets")
            if kind not in ("lasso", "sgd"):
                same(env, m.data[2], sw, "training weights")
        if regress:
            env.check([k for *_, k in seen] == list(range(len(log))), "every candidate is judged")
            marks = [-x for x in errs]
            for t, p, w, k in seen:
                same(env, t, vy, "validation targets")
                same(env, w, vw, "validation weights")
                env.eq(p, [log[k]._f(r, 1)[0] for r in env.rows(vx)], "validation predictions")
        else:
            marks = [m.mark for m in log]
            for m in log:
                for g, w_, l in zip(m.scored, (vx, vy, vw), ("validation inputs", "validation targets", "validation weights")):
                    same(env, g, w_, l)
        kept = log.index(tr._model)
        for m in marks:
            env.check(marks[kept] >= m, "the best candidate is kept")
        q = env.real("q", 2, 2, lo=-2, hi=2)
        p = tr.predict(q)
        if regress:
            env.eq(p.scores, [log[kept]._f(r, 1)[0] for r in env.rows(q)], "predictions of the kept model")
        else:
            probs = [log[kept]._f(r, 2) for r in env.rows(q)]
            env.eq(p.probabilities, probs, "probabilities of the kept model")
            env.close(p.scores, [r[1] for r in probs], "expected class", 1e-4)
        tr.reset()
        env.check(not tr.is_trained, "forgotten")


for kn in ("lasso", "tree", "treec", "logistic", "sgd"):
    suite.case(bounds="2 samples, one round of candidates", kind=kn, n=2, iterations=1)(select_case)


class PowMath(Math):
    pow = staticmethod(lambda b, e: b ** e)


def score_case(env):
    """a regression scores 1 / 2^(mean squared error), a classification its accuracy"""
    e = env.num("mse", 0, 3)
    asked = []
    with ope_env(env), env.patch(lt, "mean_squared_error", lambda t, p, sample_weight=None: asked.append((t, p, sample_weight)) or e), env.patch(lt, "math", PowMath()), \
            env.patch(lt, "accuracy_score", lambda t, p, sample_weight=None: asked.append((t, p, sample_weight)) or 0.5):
        s = lt.LassoTrainer()._score("t", "p", "w")
        env.close([s * 2 ** e], [1], "score of a regression", 1e-4)
        env.check(lt.DecisionTreeClassifierTrainer()._score("t", "p", "w") == 0.5, "score of a classification")
        env.check(asked == [("t", "p", "w")] * 2, "what is scored")


suite.case(bounds="any error up to 3")(score_case)


def network_case(env, n, steps, d):
    """each step descends the mean squared error of the network on the training data; the prediction is the network's output"""
    x, y = env.real("x", n, 2, lo=-2, hi=2), env.real("y", *([n] if d == 1 else [n, d]), lo=-2, hi=2)
    opts, nets = [], []

    class Adam:
        def __init__(self, params, lr):
            self.params, self.grads = list(params), []
            self.param_groups = [dict(lr=lr)]
            opts.append(self)

        def zero_grad(self):
            for p in self.params:
                p.grad = None

        def step(self):
            self.grads.append(self.params[0].grad.clone())

    def net(*args):
        nets.append(args)
        return env.net("f", d, bound=(-2, 2))

    sched = types.SimpleNamespace(step=lambda v: None)
    with ope_env(env), env.patch(lt, "LinearNet", net), env.patch(torch.optim, "Adam", Adam), env.patch(torch.optim.lr_scheduler, "ReduceLROnPlateau", lambda *a, **k: sched):
        tr = lt.NNTrainer()
        tr.train(TrainingData(x, y, None, x, y, None), steps)
        f = lambda row: [wrap(o) for o in env.net_eval("f", [unwrap(v) if env.sym else v for v in row], d, -2, 2)]
        Y = [r if d > 1 else [r] for r in env.L(y)]
        rows = env.rows(x)
        env.check(nets == [(2, 500, d)], "shape of the network")
        env.check(len(opts) == 1 and len(opts[0].grads) == steps, "steps")
        want = [ssum(2 * (f(r)[j] - yr[j]) / (n * d) for r, yr in zip(rows, Y)) for j in range(d)]
        for g in opts[0].grads:
            env.close(env.L(g.reshape(d)), want, "gradient of the mean squared error", 1e-3)
        q = env.real("q", 2, 2, lo=-2, hi=2)
        env.eq(tr.predict(q).scores, [f(r) for r in env.rows(q)], "predictions")


suite.case(bounds="2 samples, 1 output, 2 steps", n=2, steps=2, d=1)(network_case)
suite.case(bounds="2 samples, 2 outputs, 1 step", n=2, steps=1, d=2)(network_case)
