"""Offline tables become training rows: features, actions, rewards, masks, sampling, and the samples behind normalization."""
import math
import checks.spark as spark
import reagent.training  # noqa (import order)
from reagent.workflow import data_fetcher as df_mod
from reagent.workflow import identify_types_flow as itf
from reagent.workflow import spark_utils
from reagent.workflow.types import Dataset, PreprocessingOptions, TableSpec
from checks.common import *

suite = Suite("D41", ["Spark is stood in for by a small interpreter of the table operations used; its types are kept, its rounding to single precision is not",
                      "identifiers hash to any 32-bit number; lists of a row are non-empty and its rewards no longer than the number of steps",
                      "sampling limits other than 0 and 100 are not met exactly"])

MAX = 2 ** 32 - 1
LETTERS = ["L", "R", "U"]


def row(i, **kw):
    r = dict(mdp_id=f"m{i}", sequence_number=10 * i + 7, sequence_number_ordinal=i + 1, state_features={4: 0.5}, action="L", action_probability=0.25, reward=1.5,
             next_state_features={4: 0.75}, next_action="R", time_diff=3, possible_actions=["L", "R"], possible_next_actions=["R"], metrics={"m": 2.5}, ds="2019-07-17")
    r.update(kw)
    return r


def run(env, rows, crc=None, taken=None, **kw):
    """the rows written for a table, by sequence number; and the session"""
    crc = crc or (lambda v: 1000 + int(v[1:]))
    with spark.Session({"tab": rows}, crc=crc, taken=taken) as s:
        ds = df_mod.query_data(input_table_spec=TableSpec(table_name="tab"), **kw)
        out = s.parquet(ds.parquet_url).evaluate()
    env.check(isinstance(ds, Dataset) and len(s.saved) == 1, "one table written")
    (name, (_, fmt)), = s.saved.items()
    env.check(fmt == "parquet" and ds.parquet_url == f"file:///warehouse/{name}", "where it was written")
    return {int(r["sequence_number"]) - 1: r for r in out}, out


def table(env, name, keys, num=None, sub=None, null=False):
    """a map from some of the keys to arbitrary numbers"""
    opts = sub if sub is not None else [tuple(keys), tuple(keys[:1]), tuple(keys[1:])]
    chosen = env.pick(f"{name}_keys", opts)
    m = {k: env.num(f"{name}_{k}", -4, 4) for k in chosen}
    if null and env.flag(f"{name}_null"):
        m[keys[0]] = None
    return m


def dense(env, r, col, names, m, label):
    env.check([bool(b) for b in r[col + "_presence"]] == [m.get(k) is not None for k in names], f"{label}: which are there")
    env.check(len(r[col]) == len(names) and all(v is not None for v in r[col]), f"{label}: numbers, one per name")
    env.eq(list(r[col]), [m[k] if m.get(k) is not None else 0 for k in names], f"{label}: values")


def last(xs, multi):
    return xs if multi is None else xs[min(len(xs), multi) - 1]


def lists(x):
    return [x] if not isinstance(x, list) else x


def names_of(rows, *cols):
    return sorted({k for r in rows for c in cols for m in lists(r[c]) for k in m})


def features_case(env, multi, L, discrete):
    """dense features, next features and metrics, one column per name seen anywhere, with what is missing marked"""
    rows = []
    for i in range(2):
        full = i == 0
        s = table(env, f"s{i}", [9, 4], null=full) if full else {12: env.num("s1_12", -4, 4)}
        wide = [(11, 4), (4,), ()] if full else [(11,)]
        ns = [table(env, f"n{i}_{t}", [11, 4], sub=wide if t == 0 else [(4,)]) for t in range(L if multi else 1)]
        ms = [table(env, f"m{i}_{t}", ["w", "b"], sub=[("w", "b"), ("w",)] if full and t == 0 else [("b",)]) for t in range(L if multi else 1)]
        kw = dict(state_features=s, next_state_features=ns if multi else ns[0], metrics=ms if multi else ms[0])
        if multi:
            kw.update(reward=[0.5] * min(L, multi), next_action=["R"] * L if discrete else [{3: 1.0}] * L, time_diff=[1] * L, possible_next_actions=[["R"]] * L)
        elif not discrete:
            kw.update(next_action={3: 1.0})
        if not discrete:
            kw.update(action={3: 2.0})
        rows.append(row(i, **kw))
    args = dict(discrete_action=True, actions=LETTERS) if discrete else dict(discrete_action=False, include_possible_actions=False)
    if multi:
        args.update(multi_steps=multi, gamma=0.5)
    got, out = run(env, rows, **args)
    env.check(sorted(got) == [0, 1] and len(out) == 2, "every row once")
    names, mets = names_of(rows, "state_features", "next_state_features"), names_of(rows, "metrics")
    for i, r in enumerate(rows):
        dense(env, got[i], "state_features", names, r["state_features"], "features")
        dense(env, got[i], "next_state_features", names, last(r["next_state_features"], multi), "next features")
        dense(env, got[i], "metrics", mets, last(r["metrics"], multi), "metrics")
        env.eq(got[i]["step"], 1 if multi is None else min(L, multi), "steps looked ahead")
        env.eq(got[i]["time_diff"], 3 if multi is None else 1, "time between")


for multi, L, disc, tier in [(None, 1, True, "quick"), (2, 1, True, "quick"), (2, 2, True, "quick"), (2, 3, True, "quick"), (None, 1, False, "quick"), (3, 2, False, "quick"), (3, 3, True, "thorough"), (2, 2, False, "thorough")]:
    suite.case(tier, bounds=f"2 rows, {L} later entries each, {multi or 'no'} steps ahead", multi=multi, L=L, discrete=disc)(features_case)


def actions_case(env, multi, L):
    """actions become their places, unknown next actions the end of the episode, legal actions rows of ones and zeros"""
    opts = LETTERS + [""]
    a = env.pick("a", LETTERS + ["Z"])
    nxt = [env.pick(f"n{t}", opts if t == min(L, multi or 1) - 1 else ["", "U"][:1 + (t == 0)]) for t in range(L)]
    pa = [x for x in ("U", "Z")[:3 - L] + ("L",) if env.flag(f"may_{x}")]
    pn = [[x for x in ("R", "L") if t != min(L, multi or 1) - 1 or env.flag(f"next_{x}")] for t in range(L)]
    pa = pa + pa[:1] * bool(pa and a == "U" and env.flag("listed twice"))
    td = [env.inum(f"dt{t}", 0, 50) for t in range(L)]
    p, seq = env.num("p", 0, 1), env.inum("seq", 1, 99)
    h = env.inum("hash", 0, MAX)
    wrapm = (lambda v: v) if multi else (lambda v: v[0])
    kw = dict(action=a, next_action=wrapm(nxt), possible_actions=pa, possible_next_actions=wrapm(pn), time_diff=wrapm(td), action_probability=p, mdp_id="some one")
    if multi:
        kw.update(next_state_features=[{4: 1.0}] * L, reward=[1.0] * min(L, multi), metrics=[{"m": 1.0}] * L)
    rows = [row(0, **kw)]
    rows[0]["sequence_number_ordinal"] = seq
    asked = []

    def crc(v):
        asked.append(v)
        return h
    with spark.Session({"tab": rows}, crc=crc) as s:
        ds = df_mod.query_data(input_table_spec=TableSpec(table_name="tab"), discrete_action=True, actions=list(LETTERS), **(dict(multi_steps=multi, gamma=0.5) if multi else {}))
        r, = s.parquet(ds.parquet_url).evaluate()
    place = lambda x: LETTERS.index(x) if x in LETTERS else 3
    env.eq(r["action"], place(a), "action")
    k = last(nxt, multi) if multi else nxt[0]
    env.eq(r["next_action"], place(k), "next action")
    env.check(r["not_terminal"] is (k in LETTERS), "the episode goes on exactly when the next action is known")
    env.eq(list(r["possible_actions_mask"]), [int(x in pa) for x in LETTERS], "legal actions")
    env.eq(list(r["possible_next_actions_mask"]), [int(x in (last(pn, multi) if multi else pn[0])) for x in LETTERS], "legal next actions")
    env.eq(r["time_diff"], last(td, multi) if multi else td[0], "time between")
    env.eq(r["action_probability"], p, "probability of the action")
    env.eq(r["sequence_number"], seq, "position in the episode")
    env.eq(r["mdp_id"], h, "hashed identifier")
    env.check(set(asked) == {"some one"}, "hash of the identifier")
    env.check(set(r) == {"reward", "state_features", "state_features_presence", "next_state_features", "next_state_features_presence", "not_terminal", "action_probability", "mdp_id",
                         "sequence_number", "step", "time_diff", "metrics", "metrics_presence", "action", "next_action", "possible_actions_mask", "possible_next_actions_mask"}, "columns written")


for multi, L, tier in [(None, 1, "quick"), (2, 1, "quick"), (2, 2, "quick"), (2, 3, "quick"), (3, 3, "thorough")]:
    suite.case(tier, bounds=f"1 row, {L} later entries, 3 actions, {multi or 'no'} steps ahead", multi=multi, L=L)(actions_case)


def parametric_case(env, multi, L):
    """actions described by features: dense over all names of actions and next actions; none at all ends the episode"""
    rows = []
    for i in range(2):
        a = table(env, f"a{i}", [8, 3]) if i == 0 else {3: env.num("a1_3", -4, 4)}
        k = min(L, multi or 1) - 1
        nxt = [table(env, f"n{i}_{t}", [5, 3], sub=[(5, 3), (3,), ()] if t == k else [(), (5,)] if i == 0 else [(5,)]) for t in range(L)]
        kw = dict(action=a, next_action=nxt if multi else nxt[0])
        if multi:
            kw.update(next_state_features=[{4: 1.0}] * L, reward=[1.0] * min(L, multi), metrics=[{"m": 1.0}] * L, time_diff=[1] * L)
        rows.append(row(i, **kw))
    ahead = dict(multi_steps=multi, gamma=1.0) if multi else {}
    got, out = run(env, rows, discrete_action=False, include_possible_actions=False, **ahead)
    names = names_of(rows, "action", "next_action")
    for i, r in enumerate(rows):
        k = last(r["next_action"], multi)
        dense(env, got[i], "action", names, r["action"], "action")
        dense(env, got[i], "next_action", names, k, "next action")
        env.check(got[i]["not_terminal"] is (len(k) > 0), "the episode goes on exactly when there is a next action")
        env.check("possible_actions_mask" not in got[i], "no masks")
    env.refuses(lambda: run(env, rows, discrete_action=False, include_possible_actions=True, **ahead), AssertionError, NotImplementedError)


for multi, L, tier in [(None, 1, "quick"), (2, 1, "quick"), (2, 2, "quick"), (2, 3, "thorough")]:
    suite.case(tier, bounds=f"2 rows, {L} later entries each, {multi or 'no'} steps ahead", multi=multi, L=L)(parametric_case)


def reward_case(env, kind, L=1):
    """the reward is the logged one, the discounted sum of the steps ahead, or what the custom expression says (nothing counts as 0)"""
    args = dict(discrete_action=True, actions=LETTERS)
    if kind == "plain":
        r = [env.num(f"r{i}", -4, 4) for i in range(2)]
        rows, want = [row(i, reward=r[i]) for i in range(2)], r
    elif kind == "steps":
        g = env.pick("gamma", [0.0, 0.25, 0.9, 1.0])
        multi = env.pick("multi", [max(L, 1), 4])
        r = [[env.num(f"r{i}_{t}", -4, 4) for t in range(L if i == 0 else 1)] for i in range(2)]
        rows = [row(i, reward=r[i], next_state_features=[{4: 1.0}] * len(r[i]), metrics=[{"m": 1.0}] * len(r[i]), time_diff=[1] * len(r[i]), next_action=["L"] * len(r[i]), possible_next_actions=[["L"]] * len(r[i])) for i in range(2)]
        want = [ssum([x * g ** t for t, x in enumerate(xs)]) for xs in r]
        args.update(multi_steps=multi, gamma=g)
        if env.flag("no_discount"):
            env.refuses(lambda: run(env, rows, **dict(args, gamma=None)), AssertionError)
    else:
        r = [env.num(f"r{i}", -4, 4) for i in range(2)]
        m = [env.num(f"m{i}", -4, 4) for i in range(2)]
        e, f = env.pick("expr", [("reward * 2 - metrics['m']", lambda x, y: 2 * x - y), ("metrics['none'] + reward", lambda x, y: 0), ("POWER(reward, 3) + 10", lambda x, y: x * x * x + 10), ("0", lambda x, y: 0)])
        rows, want = [row(i, reward=r[i], metrics={"m": m[i]}) for i in range(2)], [f(x, y) for x, y in zip(r, m)]
        args.update(custom_reward_expression=e)
        if kind == "custom steps":
            w = ["reward", "next_state_features", "metrics", "time_diff", "next_action", "possible_next_actions"]
            rows = [dict(x, **{k: [x[k]] for k in w}) for x in rows]
            e, f = env.pick("expr2", [("reward[0] * 3", lambda x: 3 * x), ("SIZE(reward)", lambda x: 1)])
            want = [f(x) for x in r]
            args.update(custom_reward_expression=e, multi_steps=2, gamma=0.5)
    got, out = run(env, rows, **args)
    env.check(len(out) == 2, "every row once")
    for i in range(2):
        env.close([got[i]["reward"]], [want[i]], "reward", 1e-4)


for kind, L in [("plain", 1), ("steps", 1), ("steps", 2), ("steps", 3), ("custom", 1), ("custom steps", 1)]:
    suite.case(bounds=f"2 rows, {L} rewards", kind=kind, L=L)(reward_case)


def sample_case(env, n):
    """an episode is in the sample exactly when its hash lies in the range asked for, as a share of all hashes"""
    h = [env.inum(f"h{i}", 0, MAX) for i in range(n)]
    lo, hi = env.num("lo", -10, 110), env.num("hi", -10, 110)
    rows = [row(i, mdp_id=f"m{i % 2 if n > 2 else i}") for i in range(n)]
    args = dict(discrete_action=True, actions=LETTERS)
    crc = lambda v: h[int(v[1:])]
    if not (lo >= 0 and hi >= lo and hi <= 100):
        env.refuses(lambda: run(env, rows, crc=crc, sample_range=(lo, hi), **args), AssertionError)
        return
    for x in h:
        for b in (lo, hi):
            env.assume(sor(sabs(x - b / 100 * MAX) >= 0.5, sand(b == 0, x == 0), sand(b == 100, x == MAX)))
    keep = [bool(sand(lo * MAX <= 100 * crc(r["mdp_id"]), 100 * crc(r["mdp_id"]) <= hi * MAX)) for r in rows]
    if not any(keep):
        return
    got, out = run(env, rows, crc=crc, sample_range=(lo, hi), **args)
    env.check(len(out) == sum(keep) and sorted(got) == [i for i in range(n) if keep[i]], "rows in the sample")
    for i in got:
        env.eq(got[i]["mdp_id"], crc(rows[i]["mdp_id"]), "hashed identifier")


suite.case(bounds="2 episodes, any hashes and range", n=2)(sample_case)
suite.case(bounds="3 rows of 2 episodes, any hashes and range", n=3)(sample_case)


def upload_case(env):
    """rows go to a new table: names in use are passed over, and after ten of them nothing is written"""
    free = env.pick("free", [0, 1, 4, 8, 9, 10, 11])
    seen = []

    def taken(n):
        seen.append(n)
        return len(seen) - 1 < free
    rows = [row(0)]
    if free >= 10:
        with spark.Session({"tab": rows}, crc=lambda v: 5, taken=taken) as s:
            env.refuses(lambda: df_mod.query_data(TableSpec(table_name="tab"), True, LETTERS), Exception)
        env.check(not s.saved, "nothing written")
        return
    race = bool(env.flag("another one took the name meanwhile"))
    with spark.Session({"tab": rows}, crc=lambda v: 5, taken=taken) as s:
        s.race = race
        if race:
            env.refuses(lambda: df_mod.query_data(TableSpec(table_name="tab"), True, LETTERS), Exception)
            env.check(not s.saved, "nothing overwritten")
            return
        ds = df_mod.query_data(TableSpec(table_name="tab"), True, LETTERS)
    env.check(len(s.saved) == 1 and len(set(seen)) == free + 1 and list(s.saved)[0] == seen[-1], "the first free name")
    env.check(ds.parquet_url == f"file:///warehouse/{seen[-1]}", "where it is")


suite.case(bounds="any number of names in use")(upload_case)


def url_case(env):
    """the place of a table is its location with an absolute scheme; a location with several colons is refused"""
    scheme = env.pick("scheme", ["file", "hdfs", "a:b"])
    with spark.Session(scheme=scheme) as s:
        s.saved["t"], s.saved["u"] = ([], None), ([], None)
        if ":" in scheme:
            env.refuses(lambda: spark_utils.get_table_url("t"), AssertionError)
        else:
            env.check(spark_utils.get_table_url("u") == f"{scheme}:///warehouse/u", "place")


suite.case(bounds="3 locations")(url_case)


def refuse_case(env):
    """discrete actions need their names and masks"""
    rows = [row(0)]
    env.refuses(lambda: run(env, rows, discrete_action=True), AssertionError)
    env.refuses(lambda: run(env, rows, discrete_action=True, actions=LETTERS, include_possible_actions=False), AssertionError)


suite.case(bounds="2 calls")(refuse_case)


def norm_case(env, n, need):
    """every feature is described by a sample of about the number asked for: each value is kept by the same chance, the number over how many there are"""
    counts = {4: 0, 9: 0}
    rows, vals = [], {}
    for i in range(n):
        m = {}
        for k in (4, 9):
            if k == 4 or i < need or env.flag(f"has{i}"):
                m[k] = env.num(f"v{i}_{k}", -4, 4)
                counts[k] += 1
                vals.setdefault(k, []).append((i, m[k]))
        rows.append(row(i, state_features=m))
    rolls = {}

    def roll(r):
        j = len(rolls)
        rolls[j] = env.num(f"roll{j}", 0, 0.999)
        return rolls[j]
    seed = env.pick("seed", [None, 0, 7])
    got = []

    class Meta:
        pass

    def describe(name, values, params):
        got.append((name, list(values), dict(params)))
        return Meta() if name != 9 or known else None
    known = bool(env.flag("known"))
    white = env.pick("white", [None, [4, 9], [4], [9, 4, 5]])
    cover = env.pick("cover", [True, False])
    opts = PreprocessingOptions(num_samples=need, max_unique_enum_values=13, quantile_size=17, quantile_k2_threshold=19.5, skip_box_cox=bool(env.pick("skip", [True, False])), skip_quantiles=True,
                                feature_overrides={4: "QUANTILE"}, whitelist_features=white, assert_whitelist_feature_coverage=cover)
    with spark.Session({"tab": rows}, roll=roll) as s, env.patch(itf, "get_feature_norm_metadata", describe):
        try:
            res = itf.identify_normalization_parameters(TableSpec(table_name="tab"), "state_features", opts, seed=seed)
        except AssertionError:
            res = None
    env.check(s.seeds == [seed], "seed of the sample")
    j, want = 0, {4: [], 9: []}
    for i in range(n):
        for k in (4, 9):
            if k in rows[i]["state_features"]:
                if bool(rolls[j] * counts[k] < need):
                    want[k].append(rows[i]["state_features"][k])
                j += 1
    env.check({g[0] for g in got} == {k for k in want if want[k]}, "features described")
    for name, values, params in got:
        env.eq(values, want[name], "sample of a feature")
        env.check(params == dict(max_unique_enum_values=13, quantile_size=17, quantile_k2_threshold=19.5, skip_box_cox=opts.skip_box_cox, skip_quantiles=True, feature_overrides={4: "QUANTILE"}), "options")
    found = {k for k in want if want[k] and (k != 9 or known)}
    if white is not None:
        found &= set(white)
    if white is not None and cover and found != set(white):
        env.check(res is None, "features asked for but not described are refused")
    else:
        env.check(res is not None and set(res) == found, "features answered")


suite.case(bounds="2 rows of 2 features, 1 sample each", n=2, need=1)(norm_case)
suite.case("thorough", bounds="3 rows of 2 features, 2 samples each", n=3, need=2)(norm_case)


def norm_small_case(env, n):
    """fewer values than samples asked for are refused"""
    has = [env.flag(f"has{i}") for i in range(n)]
    rows = [row(i, state_features={4: 1.0, 9: 2.0} if bool(has[i]) else {4: 1.0}) for i in range(n)]
    k = sum(bool(h) for h in has)
    need = env.pick("need", [1, 2, 3])
    with spark.Session({"tab": rows}, roll=lambda r: 0.0) as s, env.patch(itf, "get_feature_norm_metadata", lambda *a: None):
        f = lambda: itf.identify_normalization_parameters(TableSpec(table_name="tab"), "state_features", PreprocessingOptions(num_samples=need))
        if need > n or (k and need > k):
            env.refuses(f, AssertionError)
        else:
            env.check(f() == {}, "nothing described")


suite.case(bounds="up to 3 rows", n=3)(norm_small_case)
