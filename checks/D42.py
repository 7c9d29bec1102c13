"""Training workflows: which data, settings and modules a run uses, saves and publishes."""
import contextlib
import io
import os
import pickle
import shutil
import tempfile
import types
import checks.spark as spark
import numpy as np
import pytorch_lightning as pl
import reagent.training  # noqa (import order)
from reagent.core.result_types import NoPublishingResults, NoValidationResults
from reagent.gym.envs.gym import Gym
from reagent.parameters import NormalizationData, NormalizationKey, NormalizationParameters
from reagent.publishers import file_system_publisher as fsp
from reagent.publishers.no_publishing import NoPublishing
from reagent.tensorboardX import SummaryWriterContext
from reagent.training import StoppingEpochCallback
from reagent.training.trainer import Trainer
from reagent.validators.no_validation import NoValidation
from reagent.workflow import cli, gym_batch_rl, training as tr, utils as wu
from reagent.workflow.data import manual_data_module as mdm
from reagent.workflow.model_managers import actor_critic_base as acb, discrete_dqn_base as ddb, model_manager as mm
from reagent.workflow.model_managers.actor_critic.td3 import TD3
from reagent.workflow.model_managers.discrete.discrete_dqn import DiscreteDQN
from reagent.workflow.types import Dataset, PreprocessingOptions, ReaderOptions, ResourceOptions, RewardOptions, RLTrainingOutput, TableSpec
from checks.common import *

suite = Suite("D42", ["training itself, the data queries and the packages for data tables and readers are stood in for; files are kept in a scratch folder or in memory",
                      "the limits of the samples are at least 0.0001 off the largest sum allowed"])


def norm(*ids):
    return NormalizationData(dense_normalization_parameters={i: NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0) for i in ids})


def spec_of(env, cpe_ok=False):
    """a table with any or no sample sizes"""
    s = TableSpec(table_name="tab")
    t = env.num("train_sample", 0, 120) if cpe_ok or env.flag("has_train") else None
    e = env.num("eval_sample", 0, 120) if cpe_ok or env.flag("has_eval") else None
    object.__setattr__(s, "table_sample", t)
    object.__setattr__(s, "eval_table_sample", e)
    if t is not None and e is not None:
        env.assume(sabs(t + e - 100.001) >= 0.0001)
        if cpe_ok:
            env.assume(t + e <= 100)
    return s, t, e


def want_ranges(cpe, t, e):
    """(train range, eval range or None), or None when refused"""
    if not cpe:
        return (0, 100 if t is None else t), None
    if t is None or e is None or bool(t + e > 100.001):
        return None
    return (0, t), (100 - e, 100)


def range_case(env, where):
    """training uses the first share of the episodes, evaluation the last; together they never exceed everything"""
    s, t, e = spec_of(env)
    cpe = bool(env.flag("evaluate"))
    f = (tr if where == "workflow" else mdm).get_sample_range
    want = want_ranges(cpe, t, e)
    if want is None:
        env.refuses(lambda: f(s, cpe), AssertionError)
        return
    got = f(s, cpe)
    env.eq(list(got.train_sample_range), list(want[0]), "share for training")
    if cpe:
        env.eq(list(got.eval_sample_range), list(want[1]), "share for evaluation")
        env.check(got.eval_sample_range[0] >= got.train_sample_range[1] - 0.0011, "shares do not overlap")


for where in ("workflow", "module"):
    suite.case(bounds="any or no sample sizes", where=where)(range_case)


class Rec:
    def __init__(self, **kw):
        self.calls = []
        self.__dict__.update(kw)

    def log(self, name, *a, **k):
        self.calls.append((name, a, k))

    def of(self, name):
        return [c for c in self.calls if c[0] == name]


class Module(Rec):
    def prepare_data(self):
        self.log("prepare")
        return {"made": b"1"}


class Manager(Rec):
    def get_data_module(self, **k):
        self.log("module", **k)
        return self.module

    @property
    def should_generate_eval_dataset(self):
        return self.cpe

    def query_data(self, **k):
        self.log("query", **k)
        return Dataset(parquet_url=f"q{len(self.of('query')) - 1}")

    def run_feature_identification(self, s):
        self.log("identify", s)
        return {"state": "normal"}

    def serving_module_names(self):
        return ["default_model", "second", "third"]

    def train_workflow(self, *a, **k):
        self.log("train", *a, **k)
        return RLTrainingOutput(output_paths={"default_model": "p"})


def same(env, a, b, label):
    env.check(a is b or a == b, label)


def workflow_case(env, entry):
    """a run trains once, on data prepared once and from the shares its table asks for, with the settings given; then it validates, then publishes"""
    s, t, e = spec_of(env)
    cpe = bool(env.flag("evaluate"))
    how = env.pick("data", ["module", "table"] if entry == "identify" else ["module", "table", "ready", "saved", "replaced", "both", "nothing"])
    module = Module() if how in ("module", "saved", "replaced") else None
    m = Manager(module=module, cpe=cpe)
    model = types.SimpleNamespace(value=m)
    order = []
    ro, rd, rs = (RewardOptions(custom_reward_expression="1"), ReaderOptions(minibatch_size=3), ResourceOptions()) if env.flag("options") else (None, None, None)
    full = entry == "query" and env.pick("named", [False, True])
    kw = dict(num_epochs=5, use_gpu=False, reward_options=ro, reader_options=rd, resource_options=rs, warmstart_path="warm")
    st = contextlib.ExitStack()
    if env.flag("check_and_publish"):
        def do_validate(self, out) -> NoValidationResults:
            order.append(("validate", out))
            return NoValidationResults(should_publish=True)

        def do_publish(self, manager, out, ids, child, period) -> NoPublishingResults:
            order.append(("publish", manager, out, ids))
            return NoPublishingResults(success=True)
        st.enter_context(env.patch(NoValidation, "do_validate", do_validate))
        st.enter_context(env.patch(NoPublishing, "do_publish", do_publish))
        kw.update(validator=types.SimpleNamespace(value=NoValidation()), publisher=types.SimpleNamespace(value=NoPublishing()))
    saved = None
    if entry == "query":
        kw.update(setup_data={"ready": b"2"} if how in ("ready", "both") else None, normalization_data_map={"state": "given"} if how in ("table", "both", "replaced") else None)
        if how == "saved":
            saved = {"a": b"x", "b": types.SimpleNamespace(data=b"y")}
            kw.update(saved_setup_data=saved)
        if full:
            kw.update(named_model_ids={"default_model": 7})
    f = tr.identify_and_train_network if entry == "identify" else tr.query_and_train
    with st:
        if how in ("both", "nothing"):
            env.refuses(lambda: f(s, model, **kw), ValueError)
            env.check(not m.of("train"), "nothing trained")
            return
        want = want_ranges(cpe, t, e) if how == "table" else (None, None)
        if want is None:
            env.refuses(lambda: f(s, model, **kw), AssertionError)
            env.check(not m.of("train") and not m.of("query"), "nothing trained")
            return
        out = f(s, model, **kw)
    (_, a, k), = m.of("train")
    for name, given, default in [("reward_options", ro, RewardOptions()), ("reader_options", rd, ReaderOptions()), ("resource_options", rs, ResourceOptions())]:
        env.check(k[name] == (given if given is not None else default), name)
    env.check(k["num_epochs"] == 5 and k["use_gpu"] is False and k["warmstart_path"] == "warm", "settings of the training")
    ids = k["named_model_ids"]
    env.check(ids == {"default_model": 7} if full else (list(ids) == m.serving_module_names() and len(set(ids.values())) == 3), "one identity per module")
    qs = m.of("query")
    if how == "table":
        env.check(k["setup_data"] is None and k["normalization_data_map"] == {"state": "normal" if entry == "identify" else "given"}, "normalization used")
        env.check(len(m.of("identify")) == (entry == "identify") and all(c[1][0] is s for c in m.of("identify")), "features identified once")
        env.check(len(qs) == 1 + cpe, "queries")
        for q, rng in zip(qs, want):
            env.check(q[2]["input_table_spec"] is s and q[2]["reward_options"] == k["reward_options"], "what is queried")
            env.eq(list(q[2]["sample_range"]), list(rng), "share queried")
        env.check(a[0] == Dataset(parquet_url="q0") and a[1] == (Dataset(parquet_url="q1") if cpe else None), "data trained and evaluated on")
    else:
        env.check(not qs and not m.of("identify") and a == (None, None), "data come from the module alone")
        env.check(k["normalization_data_map"] is None and k["setup_data"] == ({"ready": b"2"} if how == "ready" else {"made": b"1"}), "prepared data used")
        mods = m.of("module")
        if how == "ready":
            env.check(not mods, "nothing prepared again")
        else:
            env.check(len(module.of("prepare")) == 1, "prepared once")
            env.check(all(c[2]["input_table_spec"] is s and c[2]["reward_options"] == k["reward_options"] and c[2]["reader_options"] == k["reader_options"] for c in mods), "module's settings")
            if saved is not None:
                env.check(mods[0][2]["saved_setup_data"] == {"a": b"x", "b": b"y"}, "saved data")
    if "validator" in kw:
        env.check([o[0] for o in order] == ["validate", "publish"], "validated, then published")
        env.check(order[0][1].output_paths == {"default_model": "p"} and order[0][1].validation_result is None, "what is validated")
        env.check(order[1][1] is m and order[1][2].validation_result.value == NoValidationResults(should_publish=True) and order[1][3] == ids, "what is published")
        env.check(out.validation_result is not None and out.publishing_result.value == NoPublishingResults(success=True) and out.output_paths == {"default_model": "p"}, "answer")
    else:
        env.check(out == RLTrainingOutput(output_paths={"default_model": "p"}), "answer")


for entry in ("identify", "query"):
    suite.case(bounds="any or no sample sizes, every way of giving data", entry=entry)(workflow_case)


class Data(mdm.ManualDataModule):
    """a data module over recorded queries"""
    rec = None

    def run_feature_identification(self, s):
        self.rec.log("identify", s)
        return {"state": norm(4), "action": norm(9)}

    @property
    def required_normalization_keys(self):
        return ["state"]

    @property
    def should_generate_eval_dataset(self):
        return self.rec.cpe

    def query_data(self, input_table_spec, sample_range, reward_options):
        self.rec.log("query", input_table_spec, sample_range, reward_options)
        return Dataset(parquet_url=f"q{len(self.rec.of('query')) - 1}")

    def build_batch_preprocessor(self):
        return lambda rows: ("batch", rows)


def batches(rows, n):
    return [("batch", rows[i:i + n]) for i in range(0, len(rows), n)]


def module_case(env):
    """data are prepared once, survive being stored, and each epoch reads every row once"""
    rec = Rec(cpe=bool(env.flag("evaluate")))
    s, t, e = spec_of(env)
    ro = RewardOptions(custom_reward_expression="2")
    n = env.pick("batch", [1, 2, 5])
    saved = {"normalization_data_map": pickle.dumps({"state": norm(77)})} if env.flag("saved") else None
    d = Data(input_table_spec=s, reward_options=ro, reader_options=ReaderOptions(minibatch_size=n, petastorm_reader_pool_type="dummy"), saved_setup_data=saved)
    d.rec = rec
    want = want_ranges(rec.cpe, t, e)
    if want is None:
        env.refuses(d.prepare_data, AssertionError)
        return
    setup = d.prepare_data()
    env.check(d.prepare_data() is None, "prepared once")
    qs = rec.of("query")
    env.check(len(qs) == 1 + rec.cpe and len(rec.of("identify")) == (saved is None), "queries")
    for q, rng in zip(qs, want):
        env.check(q[1][0] is s and q[1][2] is ro, "what is queried")
        env.eq(list(q[1][1]), list(rng), "share queried")
    env.check(all(isinstance(v, bytes) for v in setup.values()), "can be stored")
    d2 = Data(setup_data=dict(setup), reader_options=ReaderOptions(minibatch_size=n, petastorm_reader_pool_type="dummy"))
    env.check(d2.prepare_data() is None, "nothing prepared again")
    d2.setup()
    d2.setup("fit")
    m = d2.get_normalization_data_map(["state"])
    env.check(m == ({"state": norm(77)} if saved else {"state": norm(4), "action": norm(9)}), "normalization")
    env.check(d2.state_normalization_data == m["state"], "normalization by name")
    env.refuses(lambda: d2.other_normalization_data, AttributeError)
    env.refuses(lambda: d2.nothing, AttributeError)
    rows = {"q0": [f"t{i}" for i in range(5)], "q1": [f"e{i}" for i in range(3)]}
    with env.patch(spark.Reader, "ROWS", rows), env.patch(spark.Reader, "LOG", []):
        for _ in range(2):
            env.check(list(d2.train_dataloader()) == batches(rows["q0"], n), "every row once")
        te = d2.test_dataloader()
        env.check((te is None) if not rec.cpe else (list(te) == batches(rows["q1"], n)), "rows for evaluation")
        env.check(all(x.closed for x in spark.Reader.LOG) and len(spark.Reader.LOG) == 2 + rec.cpe, "readers are closed")
        env.check(all(x.reader.pool == "dummy" for x in spark.Reader.LOG), "kind of reader")
    env.refuses(lambda: d.model_manager, AssertionError)
    d.model_manager = m1 = object()
    env.refuses(lambda: setattr(d, "model_manager", object()), AssertionError)
    env.check(d.model_manager is m1, "its manager")


suite.case(bounds="any or no sample sizes, 5 rows in batches of 1, 2 or 5")(module_case)


@contextlib.contextmanager
def unfrozen():
    old = mm.ModelManager.REGISTRY_FROZEN
    mm.ModelManager.REGISTRY_FROZEN = False
    before = set(mm.ModelManager.REGISTRY)
    yield
    for k in set(mm.ModelManager.REGISTRY) - before:
        del mm.ModelManager.REGISTRY[k]
    mm.ModelManager.REGISTRY_FROZEN = old


class Plain:
    """a trainer with a state"""
    loaded = None

    def load_state_dict(self, s):
        self.loaded = s

    def state_dict(self):
        return {"w": 3}


with unfrozen():
    class Custom(mm.ModelManager):
        def __init__(self, rec, modules):
            super().__init__()
            self.rec, self.modules = rec, modules

        def run_feature_identification(self, s):
            raise AssertionError

        query_data = run_feature_identification
        required_normalization_keys = ["state", "action"]
        should_generate_eval_dataset = False

        def get_data_module(self, **k):
            self.rec.log("module", **k)
            return self.rec.module

        def build_trainer(self):
            self.rec.log("build", dict(self._normalization_data_map), self.use_gpu, self.reward_options)
            return self.rec.trainer

        def train(self, *a):
            self.rec.log("train", *a)
            self.rec.writers = list(SummaryWriterContext._writer_stacks)
            return RLTrainingOutput(training_report=None)

        def build_serving_module(self):
            return self.modules["default_model"]

        def build_serving_modules(self):
            return dict(self.modules)

        def serving_module_names(self):
            return list(self.modules)


class Setup(Rec):
    def setup(self):
        self.log("setup")

    def get_normalization_data_map(self, keys):
        self.log("norm", list(keys))
        return self.norms


class Quiet(mm.SummaryWriter):
    """writes nothing"""

    def __init__(self, *a, **k):
        self.log_dir = "nowhere"

    def close(self):
        pass


def manager_case(env, n):
    """training prepares its trainer from the normalization given (all of it required), and saves every module it serves, each to its own place"""
    norms = {"state": norm(4), "action": norm(9)}
    bad = env.pick("norms", ["fine", "missing", "empty"])
    if bad == "missing":
        del norms["action"]
    if bad == "empty":
        norms["action"] = norm()
        object.__setattr__(norms["action"], "dense_normalization_parameters", None)
    how = env.pick("data", ["module", "given", "nothing"])
    rec = Rec(module=Setup(norms=norms), trainer=Plain())
    modules = {k: object() for k in ["default_model", "dqn", "actor_dqn"][:n]}
    m = Custom(rec, modules)
    disk = {}
    warm = env.pick("warm", [None, "", "path"])
    rd = ReaderOptions(minibatch_size=3) if env.flag("reader") else None
    kw = dict(num_epochs=2, use_gpu=False, named_model_ids={}, child_workflow_id=1, setup_data={"k": b"v"} if how == "module" else None, normalization_data_map=norms if how == "given" else None,
              reward_options=RewardOptions(), reader_options=rd, warmstart_path=warm)
    ticks = env.pick("seconds", [0, 1])
    with env.patch(mm, "SummaryWriter", Quiet), env.patch(torch.jit, "save", lambda mod, path: disk.__setitem__(str(path), mod)), env.patch(torch, "load", lambda p, *a, **k: ("state of", p)), \
            env.patch(mm.time, "time", lambda c=[1000.2]: c.append(c[-1] + ticks) or c[-1]):
        f = lambda: m.train_workflow(Dataset(parquet_url="a"), Dataset(parquet_url="b"), **kw)
        if how == "nothing" or bad != "fine":
            env.refuses(f, AssertionError)
            env.check(not rec.of("train") and not disk, "nothing trained")
            return
        out = f()
    if how == "module":
        (_, _, k), = rec.of("module")
        env.check(k == dict(setup_data={"k": b"v"}, reader_options=rd), "data module made from the stored data")
        env.check([c[0] for c in rec.module.calls] == ["setup", "norm"], "set up before use")
    (_, a, _), = rec.of("build")
    env.check(a == (norms, False, RewardOptions()), "what the trainer is made from")
    (_, a, _), = rec.of("train")
    env.check(a == (Dataset(parquet_url="a"), Dataset(parquet_url="b"), rec.module if how == "module" else None, 2, rd or ReaderOptions(), ResourceOptions()), "what is trained on")
    env.check(len(rec.writers) == 1 and not SummaryWriterContext._writer_stacks, "a writer during training only")
    env.check(rec.trainer.loaded == (("state of", "path") if warm else None), "warm start")
    env.check(set(out.output_paths) == set(modules), "one file per module")
    env.check(all(disk.get(p) is modules[k] for k, p in out.output_paths.items()), "each file holds its own module")
    env.refuses(lambda: m.initialize_trainer(False, RewardOptions(), norms), AssertionError)
    m.destroy_trainer()
    env.refuses(lambda: m.trainer, AssertionError)


for n in (1, 2, 3):
    suite.case(bounds=f"{n} served modules, saved in the same second or not", n=n)(manager_case)


class PlTrainer:
    """stands in for the lightning trainer"""
    made, files = [], {}

    def __init__(self, **k):
        self.k, self.fits, self.tests = k, [], 0
        PlTrainer.made.append(self)

    def fit(self, module, *a, **k):
        dm = k.get("datamodule", a[0] if a else None)
        self.fits.append((module, dm))

    def test(self, *a, **k):
        self.tests += 1

    def save_checkpoint(self, path, **k):
        PlTrainer.files[str(path)] = b"checkpoint"


def lightning_case(env, kind):
    """both kinds of manager train for the epochs asked for, from the warm start given, on the data given in batches of the size asked for; what is saved can start another run"""
    d = tempfile.mkdtemp()
    try:
        data_module = None
        asked, own = env.pick("asked", [None, 3]), env.pick("own", [None, 2])
        epochs = env.pick("epochs", [1, 4])
        rows = {"u": [1, 2, 3, 4, 5], "v": [6, 7]}
        if kind == "dqn":
            m = object.__new__(DiscreteDQN)
        else:
            m = object.__new__(TD3)
        mm.ModelManager.__init__(m)
        trainer = Light()
        object.__setattr__(m, "reader_options", ReaderOptions(minibatch_size=own) if own else None)
        reporter = types.SimpleNamespace(generate_training_report=lambda: None)
        path = os.path.join(d, "saved")
        with env.patch(type(m), "get_reporter", lambda s: reporter), env.patch(type(m), "build_trainer", lambda s: trainer), env.patch(type(m), "build_batch_preprocessor", lambda s: lambda r: ("batch", r)), \
                env.patch(type(m), "required_normalization_keys", []), env.patch(pl, "Trainer", PlTrainer), env.patch(PlTrainer, "made", []), env.patch(PlTrainer, "files", {}), \
                env.patch(mm, "open", lambda p, *a, **k: io.BytesIO(PlTrainer.files[str(p)]) if str(p) in PlTrainer.files else open(p, *a, **k)), env.patch(spark.Reader, "ROWS", rows), env.patch(spark.Reader, "LOG", []), \
                env.patch((ddb if kind == "dqn" else acb).RLTrainingReport, "make_union_instance", lambda r: None):
            warm = env.pick("warm", [None, "somewhere"])
            m.initialize_trainer(False, RewardOptions(), {}, warmstart_path=warm)
            if kind == "dqn":
                data_module = Data(setup_data={})
            m.train(Dataset(parquet_url="u"), Dataset(parquet_url="v"), data_module, epochs, ReaderOptions(minibatch_size=asked) if asked else ReaderOptions(), None)
            p, = PlTrainer.made
            env.check(trainer.reporter is reporter, "reports go to the reporter")
            (mod, dm), = p.fits
            env.check(mod is trainer and p.tests == 1, "trained once, then tested")
            env.check(p.k.get("resume_from_checkpoint") == warm and not p.k.get("gpus") and p.k["max_epochs"] >= epochs, "warm start")
            cb = [c for c in p.k["callbacks"] if isinstance(c, StoppingEpochCallback)]
            env.check(len(cb) == 1 and cb[0].num_epochs == epochs, "epochs")
            if kind == "dqn":
                env.check(dm is data_module, "data of the module")
            else:
                n = own or asked or ReaderOptions().minibatch_size
                env.check(list(dm.train_dataloader()) == batches(rows["u"], n), "rows trained on")
                env.check(list(dm.test_dataloader()) == batches(rows["v"], n), "rows tested on")
                env.check(all(x.closed for x in spark.Reader.LOG), "readers are closed")
            trainer._cleanly_stopped[0] = False
            m.save_trainer(path)
            with open(path, "rb") as f:
                env.check(f.read() == b"checkpoint", "a run saved can be resumed")
            env.check(bool(trainer._cleanly_stopped[0]), "and has stopped cleanly")
    finally:
        shutil.rmtree(d)


class Light(reagent.training.ReAgentLightningModule):
    reporter = None

    def __init__(self):
        super().__init__()

    def set_reporter(self, r):
        self.reporter = r


for kind in ("dqn", "actor critic"):
    suite.case(bounds="2 epoch counts, any reader options", kind=kind)(lightning_case)


class Card:
    """something with a textual form"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    __repr__ = __str__


def publish_case(env, n):
    """asking for a published model gives the last one published for that configuration and module"""
    d = tempfile.mkdtemp()
    try:
        db = os.path.join(d, "db.json")
        p = fsp.FileSystemPublisher(publishing_file=db)
        files = []
        for i in range(n):
            files.append(os.path.join(d, f"m{i}"))
            open(files[-1], "w").close()
        configs = [Card("A"), Card("B")]
        last = {}
        for i in range(n):
            c = env.pick(f"config{i}", [0, 1])
            names = env.pick(f"modules{i}", [("default_model",), ("default_model", "dqn")])
            p.publish(configs[c], RLTrainingOutput(output_paths={k: files[i] for k in names}), {}, 0, None)
            last.update({(c, k): files[i] for k in names})
            if env.flag(f"reopen{i}"):
                p = fsp.FileSystemPublisher(publishing_file=db)
            for cc in (0, 1):
                for k in ("default_model", "dqn"):
                    g = lambda: p.get_latest_published_model(configs[cc], k)
                    if (cc, k) in last:
                        env.check(g() == last[cc, k], "latest model")
                    else:
                        env.refuses(g, ValueError)
        env.refuses(lambda: p.publish(configs[0], RLTrainingOutput(output_paths={"default_model": os.path.join(d, "gone")}), {}, 0, None), AssertionError)
    finally:
        shutil.rmtree(d)


suite.case(bounds="2 publications of 2 configurations", n=2)(publish_case)
suite.case("thorough", bounds="3 publications of 2 configurations", n=3)(publish_case)


def bar_case(env, n):
    """an evaluation passes exactly when the mean reward of its episodes reaches the bar"""
    rs = [env.num(f"r{i}", -10, 10) for i in range(n)]
    bar = env.num("bar", -10, 10)
    mean = ssum(rs) / n
    env.assume(sabs(mean - bar) >= 0.001)
    pub = object.__new__(fsp.FileSystemPublisher)
    asked, ran = [], []
    m = types.SimpleNamespace(value=types.SimpleNamespace(serving_module_names=lambda: ["default_model", "dqn"]))
    module = env.pick("module", [None, "dqn", "other"])
    kw = {} if module is None else dict(module_name=module)
    arr = np.array(rs, dtype=object if env.sym else np.float64)

    def evaluate(**k):
        ran.append(k)
        return arr
    with env.patch(gym_batch_rl, "Gym", lambda env_name: ("env", env_name)), env.patch(fsp.FileSystemPublisher, "get_latest_published_model", lambda s, mgr, name: asked.append((mgr, name)) or "place"), \
            env.patch(torch.jit, "load", lambda p, *a, **k: ("model at", p)), env.patch(gym_batch_rl, "create_predictor_policy_from_model", lambda x, **k: ("policy of", x)), \
            env.patch(gym_batch_rl, "Agent", types.SimpleNamespace(create_for_env_with_serving_policy=lambda e, p: ("agent", e, p))), env.patch(gym_batch_rl, "evaluate_for_n_episodes", evaluate):
        f = lambda: gym_batch_rl.evaluate_gym("game", m, types.SimpleNamespace(value=pub), n, bar, max_steps=9, **kw)
        if module == "other":
            env.refuses(f, AssertionError)
            return
        if bool(mean >= bar):
            f()
        else:
            env.refuses(f, AssertionError)
    env.check(asked == [(m.value, module or "default_model")], "model asked for")
    env.check(ran == [dict(n=n, env=("env", "game"), agent=("agent", ("env", "game"), ("policy of", ("model at", "place"))), max_steps=9)], "what is evaluated")
    env.refuses(lambda: gym_batch_rl.evaluate_gym("game", m, types.SimpleNamespace(value=object()), n, bar), AssertionError)


for n in (1, 3):
    suite.case(bounds=f"{n} episodes", n=n)(bar_case)


CALLS = []


def target(a: int, b: float = 2.5, c: str = "none"):
    CALLS.append((a, b, c))


def cli_case(env):
    """a run from the command line calls its workflow with the values of its file, defaults for what is missing, and ignores what it does not know"""
    a = env.pick("a", [None, 3, -1])
    b, c, extra = env.flag("b"), env.flag("c"), env.flag("extra")
    d = {}
    if a is not None:
        d["a"] = a
    if b:
        d["b"] = 0.25
    if c:
        d["c"] = "text"
    if extra:
        d["z"] = 9
    text = "\n".join(f"{k}: {v}" for k, v in d.items())
    CALLS.clear()
    f = lambda: cli.run.callback("checks.D42.target", io.StringIO(text))
    if a is None:
        env.check(env.raises(f, TypeError, ValueError, AssertionError, KeyError), "missing values are refused")
        env.check(not CALLS, "nothing run")
        return
    f()
    env.check(CALLS == [(a, 0.25 if b else 2.5, "text" if c else "none")], "values used")


suite.case(bounds="every subset of 4 values")(cli_case)


def ask_case(env, kind):
    """tables are queried and features identified for the features, actions, rewards and steps configured"""
    s = TableSpec(table_name="tab")
    ro = RewardOptions(custom_reward_expression=env.pick("expr", [None, "reward + 1"]))
    rng = (env.num("lo", 0, 50), env.num("hi", 50, 100))
    gamma = env.num("gamma", 0, 1)
    steps = env.pick("steps", [None, 3])
    opts = PreprocessingOptions(num_samples=77) if env.flag("options") else None
    queries, idents = [], []

    def query(*a, **k):
        import inspect
        queries.append(dict(inspect.signature(real_q).bind(*a, **k).arguments))
        return Dataset(parquet_url="u")

    def ident(*a, **k):
        import inspect
        b = dict(inspect.signature(real_i).bind(*a, **k).arguments)
        idents.append(b)
        return {i: NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0) for i in b["preprocessing_options"].whitelist_features}
    mod = ddb if kind == "dqn" else acb
    real_q, real_i = mod.query_data, mod.identify_normalization_parameters
    cfg = lambda ids: types.SimpleNamespace(float_feature_infos=[types.SimpleNamespace(feature_id=i, name=str(i)) for i in ids])
    with env.patch(mod, "query_data", query), env.patch(mod, "identify_normalization_parameters", ident):
        if kind == "dqn":
            m = types.SimpleNamespace(preprocessing_options=opts, state_feature_config=cfg([5, 2]), action_names=["x", "y"], multi_steps=steps, rl_parameters=types.SimpleNamespace(gamma=gamma),
                                      eval_parameters=types.SimpleNamespace(calc_cpe_in_training=True))
            o = ddb.DiscreteDqnDataModule(input_table_spec=s, reward_options=ro, model_manager=m)
            env.check(o.should_generate_eval_dataset is True and list(o.required_normalization_keys) == [NormalizationKey.STATE], "what it needs")
        else:
            o = TD3(state_preprocessing_options=opts, state_float_features=[(5, "f"), (2, "g")], action_float_features=[(8, "h")])
            env.check(o.should_generate_eval_dataset is o.eval_parameters.calc_cpe_in_training and set(o.required_normalization_keys) == {NormalizationKey.STATE, NormalizationKey.ACTION}, "what it needs")
        got = o.run_feature_identification(s)
        o.query_data(s, rng, ro)
    env.check(set(got) == set(o.required_normalization_keys), "normalization found")
    q, = queries
    env.check(q["input_table_spec"] is s and q["custom_reward_expression"] == ro.custom_reward_expression, "table and reward queried")
    env.eq(list(q["sample_range"]), list(rng), "share queried")
    i0 = idents[0]
    env.check(i0["table_spec"] is s and i0["column_name"] == "state_features" and list(i0["preprocessing_options"].whitelist_features) == [5, 2] and i0["preprocessing_options"].num_samples == (opts or PreprocessingOptions()).num_samples, "state features identified")
    env.check(set(got[NormalizationKey.STATE].dense_normalization_parameters) == {5, 2}, "state normalization")
    if kind == "dqn":
        env.check(q["discrete_action"] is True and q["actions"] == ["x", "y"] and q.get("include_possible_actions", True) is True and q.get("multi_steps") == steps and len(idents) == 1, "actions queried")
        env.eq(q["gamma"], gamma, "discount")
    else:
        env.check(q["discrete_action"] is False and q["include_possible_actions"] is False and q.get("actions") is None and len(idents) == 2, "actions queried")
        i1 = idents[1]
        o1 = i1["preprocessing_options"]
        env.check(i1["column_name"] == "action" and list(o1.whitelist_features) == [8] and o1.feature_overrides == {8: "CONTINUOUS_ACTION"}, "action features identified")
        env.check(set(got[NormalizationKey.ACTION].dense_normalization_parameters) == {8}, "action normalization")


for kind in ("dqn", "actor critic"):
    suite.case(bounds="any share, discount and options", kind=kind)(ask_case)
