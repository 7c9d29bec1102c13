"""Batch containers: raw entries land in their places, and operations on a batch act on every tensor in it and on nothing else."""
import dataclasses
import io
import types
from reagent import torch_utils
from reagent import types as rlt_mod
from reagent.model_utils import seq2slate_utils as su
from reagent.preprocessing.types import InputColumn as IC
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from checks.common import *

suite = Suite("D37", ["feature values lie in [-8, 8]; moving a tensor to another device keeps its values"])


def flatten(x, path=""):
    """(path, leaf) of everything inside a container"""
    if isinstance(x, rlt.TensorDataClass):
        return [p for f in dataclasses.fields(x) for p in flatten(getattr(x, f.name), f"{path}.{f.name}")]
    if isinstance(x, dict):
        return [p for k, v in x.items() for p in flatten(v, f"{path}[{k}]")]
    if isinstance(x, tuple):
        return [p for i, v in enumerate(x) for p in flatten(v, f"{path}({i})")]
    return [(path, x)]


def docs(env, tag, B, C, F):
    return rlt.DocList(env.real(tag + ".f", B, C, F, lo=-8, hi=8), env.mask(tag + ".m", B, C, dtype=torch.bool) if False else torch.ones(B, C, dtype=torch.bool), env.real(tag + ".v", B, C, lo=-8, hi=8))


def rich(env, B=2):
    """a batch with everything in it"""
    feats = lambda tag: rlt.FeatureData(float_features=env.real(tag, B, 2, lo=-8, hi=8),
                                        id_list_features={"seen": (torch.tensor([0, 1]), torch.tensor([7, 8, 9]))},
                                        id_score_list_features={"liked": (torch.tensor([0, 2]), torch.tensor([4, 5]), env.real(tag + ".score", 2, lo=-8, hi=8))},
                                        candidate_docs=docs(env, tag + ".d", B, 2, 1), time_since_first=None)
    return rlt.SlateQInput(state=feats("s"), next_state=feats("n"), reward=env.real("r", B, 2, lo=-8, hi=8), time_diff=torch.ones(B, 1), step=None, not_terminal=env.mask("nt", B, 1),
                           action=env.ints("a", B, 2, lo=0, hi=1), next_action=torch.zeros(B, 2, dtype=torch.int64), reward_mask=torch.ones(B, 2),
                           extras=rlt.ExtraData(mdp_id=torch.arange(B), max_num_actions=3, metrics=env.real("m", B, 1, lo=-8, hi=8)))


def same(env, got, want, what, op=lambda v: v):
    g, w = flatten(got), flatten(want)
    env.check([p for p, _ in g] == [p for p, _ in w], f"{what}: the same structure")
    for (p, a), (_, b) in zip(g, w):
        if isinstance(b, torch.Tensor):
            e = op(b)
            env.shape(a, tuple(e.shape), f"{what}{p}")
            env.eq(env.L(a), env.L(e), f"{what}{p}")
            env.check(a.dtype == e.dtype, f"{what}{p}: type")
        else:
            env.check(a == b and type(a) is type(b), f"{what}{p}")


@suite.case(bounds="a batch of 2 with nested features, lists, documents and absent entries")
def everywhere_case(env):
    """an operation on a batch is that operation on every tensor inside, at any depth, leaving all else and the batch itself alone"""
    b = rich(env)
    before = {p: v for p, v in flatten(b)}
    same(env, b.clone(), b, "clone")
    env.check(all(x is not y for (_, x), (_, y) in zip(flatten(b.clone()), flatten(b)) if isinstance(y, torch.Tensor)), "a clone holds its own tensors")
    same(env, b.double(), b, "double", lambda v: v.double())
    same(env, b.to(torch.float64), b, "to", lambda v: v.to(torch.float64))
    same(env, b.detach(), b, "detach")
    same(env, b.repeat_interleave(2, dim=0) if False else b.float(), b, "float", lambda v: v.float())
    env.check(type(b.float()) is rlt.SlateQInput and type(b.float().state.candidate_docs) is rlt.DocList and isinstance(b.float().state.id_list_features["seen"], tuple), "the same kinds of containers")
    env.check(all(before[p] is v for p, v in flatten(b)), "the batch is unchanged")
    x = b._replace(time_diff=torch.zeros(2, 1))
    env.check(x.time_diff is not b.time_diff and all(getattr(x, f.name) is getattr(b, f.name) for f in dataclasses.fields(b) if f.name != "time_diff"), "replacing one entry")
    with env.patch(rlt_mod.logger, "error", lambda *a: None):
        env.refuses(lambda: b.no_such_thing, AttributeError)
        env.refuses(lambda: b.is_cuda, RuntimeError)
    env.refuses(lambda: b.__no_such__, AttributeError)
    env.check(not hasattr(b, "__len_hint__"), "protocol lookups fail quietly")


@suite.case(bounds="a batch of 2 with features, documents and absent entries; the device is a stand-in that records")
def device_case(env):
    """moving a batch to the accelerator moves its tensors, without blocking unless told to, and only those"""
    moved = []

    def cuda(self, *a, **kw):
        moved.append((self, a, dict(kw)))
        return self + 0
    B = 2
    d = docs(env, "d", B, 2, 1)
    d.mask = torch.ones(B, 2)
    b = rlt.PolicyNetworkInput(state=rlt.FeatureData(env.real("s", B, 1), candidate_docs=d), next_state=feat(env.real("ns", B, 1)), reward=env.real("r", B, 1), time_diff=torch.ones(B, 1), step=None,
                               not_terminal=torch.ones(B, 1), action=feat(env.real("a", B, 1)), next_action=feat(env.real("na", B, 1)), extras=rlt.ExtraData(max_num_actions=4))
    leaves = [v for _, v in flatten(b) if isinstance(v, torch.Tensor)]
    T = type(b.reward)
    with env.patch(torch.Tensor, "cuda", cuda):
        with env.patch(T, "cuda", cuda):
            c = b.cuda()
            same(env, c, b, "moved")
            env.check(len(moved) == len(leaves) and all(any(m[0] is x for m in moved) for x in leaves), "every tensor is moved once")
            env.check(all(m[1] == () and m[2] == {"non_blocking": True} for m in moved), "without blocking")
            env.check(all(not any(v is x for x in leaves) for _, v in flatten(c) if isinstance(v, torch.Tensor)), "into a new batch")
            moved.clear()
            b.state.cuda(3, non_blocking=False)
            env.check(len(moved) == 4 and all(m[1] == (3,) and m[2] == {"non_blocking": False} for m in moved), "as told")


def slate_case(env, B, C, K, F):
    """the documents of a slate are those at the chosen places, in order; choosing an absent one is refused"""
    m = env.mask("m", B, C)
    d = rlt.DocList(env.real("f", B, C, F, lo=-8, hi=8), m.bool(), env.real("v", B, C, lo=-8, hi=8))
    a = env.ints("a", B, K, lo=0, hi=C - 1)
    M, A = env.L(m), env.L(a)
    ok = sand(*[pick_at(M[b], A[b][k]) == 1 for b in range(B) for k in range(K)])
    if bool(ok):
        s = d.select_slate(a)
        env.check(type(s) is rlt.DocList, "a list of documents")
        for b in range(B):
            for k in range(K):
                for j in range(F):
                    env.eq(env.L(s.float_features)[b][k][j], pick_at([r[j] for r in env.L(d.float_features)[b]], A[b][k]), "features of the chosen document")
                env.eq(env.L(s.value)[b][k], pick_at(env.L(d.value)[b], A[b][k]), "its value")
        env.check(bool(s.mask.all()), "all present")
        x = s.as_feature_data()
        env.shape(x.float_features, (B * K, F), "documents one by one")
        env.eq(env.L(x.float_features), [r for q in env.L(s.float_features) for r in q], "documents one by one")
    else:
        env.refuses(lambda: d.select_slate(a))


suite.case(bounds="2 lists of 3 documents, slates of 2, any choice and presence", B=2, C=3, K=2, F=1)(slate_case)
suite.case(bounds="1 list of 2 documents of 2 features, slates of 3", B=1, C=2, K=3, F=2)(slate_case)


@suite.case(bounds="2 states, 3 documents each")
def features_case(env):
    """defaults of documents, tiling of states and joining states with documents"""
    f = env.real("f", 2, 3, 2, lo=-8, hi=8)
    d = rlt.DocList(f)
    env.shape(d.mask, (2, 3), "mask")
    env.check(d.mask.dtype == torch.bool and bool(d.mask.all()), "documents are present unless said otherwise")
    env.eq(env.L(d.value), [[1] * 3] * 2, "and weigh one")
    env.refuses(lambda: rlt.DocList(f[0]))
    s = env.real("s", 2, 2, lo=-8, hi=8)
    x = rlt.FeatureData(s)
    env.check(x.has_float_features_only, "plain features")
    t = x.get_tiled_batch(3)
    env.eq(env.L(t.float_features), [r for r in env.L(s) for _ in range(3)], "each state repeated in place")
    lists, scores = {"l": (torch.zeros(2), torch.zeros(2))}, {"l": (torch.zeros(2), torch.zeros(2), torch.zeros(2))}
    for y in (rlt.FeatureData(s, id_list_features=lists), rlt.FeatureData(s, id_score_list_features=scores), rlt.FeatureData(s, candidate_docs=d), rlt.FeatureData(s, time_since_first=torch.zeros(2))):
        env.check(not y.has_float_features_only, "features besides the plain ones")
        env.refuses(lambda: y.get_tiled_batch(2))
    env.refuses(lambda: x.concat_user_doc())
    j = rlt.FeatureData(s, candidate_docs=d).concat_user_doc()
    env.eq(env.L(j), [[env.L(s)[b] + env.L(f)[b][c] for c in range(3)] for b in range(2)], "each document with its state")
    e = rlt._embed_states(rlt.FeatureData(s, candidate_docs=d))
    env.eq(env.L(e.float_features), [env.L(s)[b] + [v for r in env.L(f)[b] for v in r] for b in range(2)], "a state followed by its documents")
    env.check(e.candidate_docs is None, "and nothing else")
    env.refuses(lambda: rlt._embed_states(x))
    told = []
    fresh = rlt_mod.NoDuplicatedWarningLogger(types.SimpleNamespace(warning=told.append))
    with env.patch(rlt_mod, "no_dup_logger", fresh):
        rlt.FeatureData(f)
        rlt.FeatureData(f)
        env.refuses(lambda: rlt.FeatureData(s[0]), ValueError)
    env.check(len(told) == 1, "sequences warn once")
    env.check(rlt.TensorFeatureData()(s).float_features is s, "a tensor as features")
    env.refuses(lambda: rlt.TensorFeatureData()([1]))


def base_dict(env, B, cands, lists):
    b = {IC.STATE_FEATURES: env.real("s", B, 1), IC.NEXT_STATE_FEATURES: env.real("ns", B, 1), IC.REWARD: env.real("r", B, 1), IC.TIME_DIFF: env.real("td", B, 1), IC.NOT_TERMINAL: env.mask("nt", B, 1)}
    if lists:
        for k in (IC.STATE_ID_LIST_FEATURES, IC.NEXT_STATE_ID_LIST_FEATURES, IC.STATE_ID_SCORE_LIST_FEATURES, IC.NEXT_STATE_ID_SCORE_LIST_FEATURES):
            b[k] = {k: (torch.zeros(B), torch.zeros(1))}
        b[IC.STEP] = env.real("step", B, 1)
    if cands:
        b[IC.CANDIDATE_FEATURES], b[IC.NEXT_CANDIDATE_FEATURES] = env.real("c", B, cands[0], 1), env.real("nc", B, cands[1], 1)
    return b


def from_base(env, b, x, B, cands, lists):
    env.check(x.state.float_features is b[IC.STATE_FEATURES] and x.next_state.float_features is b[IC.NEXT_STATE_FEATURES], "states")
    env.check(x.reward is b[IC.REWARD] and x.time_diff is b[IC.TIME_DIFF] and x.not_terminal is b[IC.NOT_TERMINAL] and x.step is b.get(IC.STEP), "rewards, times and ends")
    for s, l, sc in ((x.state, IC.STATE_ID_LIST_FEATURES, IC.STATE_ID_SCORE_LIST_FEATURES), (x.next_state, IC.NEXT_STATE_ID_LIST_FEATURES, IC.NEXT_STATE_ID_SCORE_LIST_FEATURES)):
        env.check(s.id_list_features == b.get(l, {}) and s.id_score_list_features == b.get(sc, {}), "lists")
    for s, k, n in ((x.state, IC.CANDIDATE_FEATURES, 0), (x.next_state, IC.NEXT_CANDIDATE_FEATURES, 1)):
        if cands:
            env.check(s.candidate_docs.float_features is b[k], "documents")
            env.shape(s.candidate_docs.mask, (B, cands[n]), "one mark per document")
            env.shape(s.candidate_docs.value, (B, cands[n]), "one value per document")
            env.check(s.candidate_docs.mask.dtype == torch.bool and s.candidate_docs.mask is not (x.next_state if n == 0 else x.state).candidate_docs.mask, "marks of its own")
        else:
            env.check(s.candidate_docs is None, "no documents")
    env.check(len(x) == B and x.batch_size() == B, "size of the batch")
    env.check({k: id(v) for k, v in x.as_dict_shallow().items()} == {k: id(getattr(x, k)) for k in ("state", "next_state", "reward", "time_diff", "step", "not_terminal")}, "the common entries")


def from_dict_case(env, B, cands, lists):
    """a training batch made from a dictionary holds each entry of the dictionary in its own place"""
    b = base_dict(env, B, cands, lists)
    from_base(env, b, rlt.BaseInput.from_dict(b), B, cands, lists)
    q = dict(b, **{IC.ACTION: env.real("a", B, 2), IC.NEXT_ACTION: env.real("na", B, 2), IC.POSSIBLE_ACTIONS_MASK: env.mask("pm", B, 2), IC.POSSIBLE_NEXT_ACTIONS_MASK: env.mask("pnm", B, 2), IC.EXTRAS: rlt.ExtraData()})
    x = rlt.DiscreteDqnInput.from_dict(q)
    from_base(env, b, x, B, cands, lists)
    env.check(type(x) is rlt.DiscreteDqnInput and all(getattr(x, k) is q[k] for k in ("action", "next_action", "possible_actions_mask", "possible_next_actions_mask", "extras")), "discrete actions")
    y = rlt.PolicyNetworkInput.from_dict(q)
    from_base(env, b, y, B, cands, lists)
    env.check(y.action.float_features is q["action"] and y.next_action.float_features is q["next_action"] and y.extras is q["extras"], "continuous actions")
    q.pop("extras")
    env.check(rlt.PolicyNetworkInput.from_dict(q).extras is None, "extras may be absent")
    p = {"state_features": b[IC.STATE_FEATURES], "next_state_features": b[IC.NEXT_STATE_FEATURES], "reward": b[IC.REWARD], "not_terminal": b[IC.NOT_TERMINAL], "time_diff": b[IC.TIME_DIFF], "step": None, "extras": rlt.ExtraData(),
         **{k: env.real("p." + k, B, 2) for k in ("action", "next_action", "possible_actions", "possible_next_actions")}, **{k: env.mask("p." + k, B, 2) for k in ("possible_actions_mask", "possible_next_actions_mask")}}
    z = rlt.ParametricDqnInput.from_dict(p)
    env.check(all(getattr(z, k).float_features is p[k] for k in ("action", "next_action", "possible_actions", "possible_next_actions")), "parametric actions")
    env.check(all(getattr(z, k) is p[k] for k in ("possible_actions_mask", "possible_next_actions_mask", "reward", "not_terminal", "time_diff", "step", "extras")), "masks, rewards, times and ends")
    env.check(z.state.float_features is p["state_features"] and z.next_state.float_features is p["next_state_features"] and len(z) == B, "states")


for cands, lists in [(None, False), ((2, 3), True), ((3, 3), False)]:
    suite.case(bounds="2 transitions", B=2, cands=cands, lists=lists)(from_dict_case)


@suite.case(bounds="2 transitions, 2 and 3 documents")
def slate_dict_case(env):
    """likewise for slates"""
    B = 2
    d = {"state_features": env.real("s", B, 1), "next_state_features": env.real("ns", B, 1), "candidate_features": env.real("c", B, 2, 1), "next_candidate_features": env.real("nc", B, 3, 1),
         "item_mask": torch.ones(B, 2), "next_item_mask": torch.ones(B, 3), "item_probability": env.real("ip", B, 2), "next_item_probability": env.real("nip", B, 3), "action": torch.zeros(B, 1), "next_action": torch.ones(B, 1),
         "position_reward": env.real("pr", B, 2), "reward_mask": env.mask("rm", B, 2), "time_diff": torch.ones(B, 1), "not_terminal": env.mask("nt", B, 1), "mdp_id": torch.arange(B), "sequence_number": torch.arange(B),
         "action_probability": env.real("ap", B, 1), "unrelated": 5}
    x = rlt.SlateQInput.from_dict(d)
    for s, pre in ((x.state, ""), (x.next_state, "next_")):
        env.check(s.float_features is d[pre + "state_features"] and s.candidate_docs.float_features is d[pre + "candidate_features"] and s.candidate_docs.mask is d[pre + "item_mask"]
                  and s.candidate_docs.value is d[pre + "item_probability"], "states and documents")
    env.check(x.reward is d["position_reward"] and all(getattr(x, k) is d[k] for k in ("action", "next_action", "reward_mask", "time_diff", "not_terminal")) and x.step is None, "slates and rewards")
    e = x.extras
    env.check(all(getattr(e, k) is d[k] for k in ("mdp_id", "sequence_number", "action_probability")) and e.metrics is None and e.max_num_actions is None, "extras")
    for shape, n in (((3, 2), 3), ((4, 3, 2), 3)):
        m = rlt.MemoryNetworkInput(state=rlt.FeatureData(torch.zeros(shape)) if len(shape) == 2 else types.SimpleNamespace(float_features=torch.zeros(shape)), next_state=None, reward=None, time_diff=None, step=None, not_terminal=None, action=None)
        env.check(len(m) == n and m.batch_size() == n, "size of a batch of sequences")
    one = rlt.PolicyGradientInput.input_prototype()
    env.check(one.state.float_features.shape[0] == one.action.shape[0] == one.reward.shape[0] == one.log_prob.shape[0], "a prototype of one batch")


def lightning_case(env):
    """a trainer fed dictionaries sees batches of its own type"""
    seen = []

    class Tr(ReAgentLightningModule):
        def configure_optimizers(self):
            return [None]

        def train_step_gen(self, training_batch: rlt.PolicyNetworkInput, batch_idx: int):
            seen.append(training_batch)
            yield batch_idx

    class Plain(Tr):
        def train_step_gen(self, training_batch, batch_idx: int):
            seen.append(training_batch)
            yield batch_idx
    b = dict(base_dict(env, 2, None, False), action=env.real("a", 2, 1), next_action=env.real("na", 2, 1))
    Tr().training_step(b, 0, 0)
    from_base(env, b, seen[0], 2, None, False)
    env.check(type(seen[0]) is rlt.PolicyNetworkInput and seen[0].action.float_features is b["action"], "converted")
    x = rlt.PolicyNetworkInput.from_dict(b)
    Tr().training_step(x, 0, 0)
    Plain().training_step(b, 0, 0)
    env.check(seen[1] is x and seen[2] is b, "batches pass as they are")


suite.case(bounds="2 transitions")(lightning_case)


def ranking_case(env, B, n, T, acts, opt):
    """the logged and the ideal slate are spelled with numbers counted from two, items fed one place late after a start symbol, and no item sees later ones"""
    st, c = env.real("st", B, 2, lo=-8, hi=8), env.real("c", B, n, 2, lo=-8, hi=8)
    A, O = acts and torch.tensor(acts), opt and torch.tensor(opt)
    sr, pr, p = env.real("sr", B, 1), env.real("pr", B, T) if acts else None, env.real("p", B, 1, lo=0.125, hi=1)
    e = rlt.ExtraData(mdp_id=torch.arange(B))
    x = rlt.PreprocessedRankingInput.from_input(state=st, candidates=c, device=torch.device("cpu"), action=A, optimal_action=O, logged_propensities=p, slate_reward=sr, position_reward=pr, extras=e)
    env.eq(env.L(x.state.float_features), env.L(st), "states")
    C = env.L(c)
    env.eq(env.L(x.src_seq.float_features), C, "candidates")
    env.eq(env.L(x.src_in_idx), [list(range(2, n + 2))] * B, "numbers of the candidates")
    env.eq(env.L(x.src_src_mask), [[[1] * n] * n] * B, "candidates see each other")
    env.eq(env.L(x.slate_reward), env.L(sr), "slate rewards")
    env.eq(env.L(x.tgt_out_probs), env.L(p), "propensities")
    env.check(x.extras is e and x.batch_size() == B, "extras and size")
    for pre, a in (("tgt", acts), ("optim_tgt", opt)):
        names = [f"{pre}_{k}" for k in ("in_idx", "out_idx", "in_seq", "out_seq")]
        if a is None:
            env.check(all(getattr(x, k) is None for k in names), "no slate")
            continue
        env.eq(env.L(getattr(x, names[1])), [[i + 2 for i in r] for r in a], "numbers of the slate")
        env.eq(env.L(getattr(x, names[0])), [[1] + [i + 2 for i in r[:-1]] for r in a], "numbers fed in")
        env.eq(env.L(getattr(x, names[3]).float_features), [[C[b][i] for i in r] for b, r in enumerate(a)], "items of the slate")
        env.eq(env.L(getattr(x, names[2]).float_features), [[[0, 0]] + [C[b][i] for i in r[:-1]] for b, r in enumerate(a)], "items fed in")
    if acts:
        env.eq(env.L(x.position_reward), env.L(pr), "rewards of the places")
        env.eq(env.L(x.tgt_tgt_mask), [[[int(j <= i) for j in range(T)] for i in range(T)]], "no place sees later ones")
        env.refuses(lambda: rlt.PreprocessedRankingInput.from_input(state=st, candidates=c, device=torch.device("cpu"), action=A, position_reward=torch.zeros(B, T + 1)))
    else:
        env.check(x.tgt_tgt_mask is None and x.position_reward is None, "no slate")
    for kw in (dict(state=st[0]), dict(candidates=c[0]), dict(logged_propensities=p[:, 0]), dict(slate_reward=sr[:, 0]), dict(logged_propensities=torch.ones(B, 2)), dict(slate_reward=torch.ones(B, 2))):
        env.refuses(lambda: rlt.PreprocessedRankingInput.from_input(**{**dict(state=st, candidates=c, device=torch.device("cpu")), **kw}))
    for kw in (dict(state=st), dict(src_seq=c), dict(tgt_in_seq=c), dict(tgt_out_seq=c), dict(optim_tgt_in_seq=c), dict(optim_tgt_out_seq=c)):
        env.refuses(lambda: rlt.PreprocessedRankingInput(**{**dict(state=x.state, src_seq=x.src_seq), **kw}), ValueError)
    pb = rlt.PreprocessedTrainingBatch(training_input=x)
    env.check(pb.batch_size() == B, "size")


suite.case(bounds="2 slates of 2 out of 3", B=2, n=3, T=2, acts=[[2, 0], [1, 2]], opt=[[0, 1, 2], [2, 1, 0]])(ranking_case)
suite.case(bounds="1 slate of 3 out of 3, no ideal one", B=1, n=3, T=3, acts=[[2, 0, 1]], opt=None)(ranking_case)
suite.case(bounds="2 lists, no slate", B=2, n=2, T=0, acts=None, opt=None)(ranking_case)


def gather_case(env, B, n, T):
    """gathered rows are those at the given places of each example, stacked tensors keep their order, rescaling maps the old range onto the new"""
    d, i = env.real("d", B, n, 2, lo=-8, hi=8), env.ints("i", B, T, lo=0, hi=n - 1)
    D, I = env.L(d), env.L(i)
    g = env.L(torch_utils.gather(d, i))
    for b in range(B):
        for t in range(T):
            for k in range(2):
                env.eq(g[b][t][k], pick_at([r[k] for r in D[b]], I[b][t]), "gathered")
    ms = [env.real(f"m{k}", 2, 2, lo=-8, hi=8) for k in range(3)]
    s = torch_utils.stack(ms)
    env.shape(s, (3, 2, 2), "stacked")
    env.eq(env.L(s), [env.L(m) for m in ms], "stacked")


suite.case(bounds="2 examples, 3 rows, 2 places", B=2, n=3, T=2)(gather_case)
suite.case(bounds="1 example, 2 rows, 3 places", B=1, n=2, T=3)(gather_case)


@suite.case(bounds="2 rows of 2 columns, ranges of any width above 1/8")
def rescale_case(env):
    t, lo, w, nlo, nw = env.real("t", 2, 2, lo=-8, hi=8), env.real("lo", 1, 2, lo=-4, hi=4), env.real("w", 1, 2, lo=0.125, hi=4), env.real("nlo", 1, 2, lo=-4, hi=4), env.real("nw", 1, 2, lo=0.125, hi=4)
    r = env.L(torch_utils.rescale_torch_tensor(t, nlo, nlo + nw, lo, lo + w))
    T, LO, W, NL, NW = env.L(t), *(env.L(x)[0] for x in (lo, w, nlo, nw))
    for i in range(2):
        env.close(r[i], [(T[i][j] - LO[j]) / W[j] * NW[j] + NL[j] for j in range(2)], "rescaled", 1e-3)
    for bad in range(4):
        args = [nlo, nlo + nw, lo, lo + w]
        args[bad] = args[bad][:, :1]
        env.refuses(lambda: torch_utils.rescale_torch_tensor(t, *args))
    temp = env.num("temp", 0.25, 4)
    v = env.real("v", 1, 3, lo=-2, hi=2)
    sm = env.L(torch_utils.softmax(v, temp))[0]
    e = [sexp(x / temp) for x in env.L(v)[0]]
    env.close(sm, [x / ssum(e) for x in e], "softmax at a temperature", 1e-4)


def masks_case(env, B, T, n, heads):
    """decoding masks hide the items already placed, reserved symbols and later places, and sequence probabilities multiply those of their symbols"""
    i = env.ints("i", B, T, lo=0, hi=n + 1)
    I = env.L(i)
    for r in I:
        env.assume(r[0] == 1)
    m = env.L(su.subsequent_and_padding_mask(i))
    for b in range(B):
        for r in range(T):
            env.eq(m[b][r], [ite(sand(I[b][c] != 0, c <= r), 1, 0) for c in range(T)], "neither padding nor later items")
    lg = env.real("lg", B, T, n + 2, lo=-4, hi=4)
    L0 = env.L(lg)
    k = env.L(su.mask_logits_by_idx(lg.clone(), i))
    for b in range(B):
        for r in range(T):
            for c in range(n + 2):
                gone = True if c < 2 else sor(*[I[b][q] == c for q in range(r + 1)])
                env.check(sor(sand(gone, k[b][r][c] < -1e30), sand(snot(gone), k[b][r][c] == L0[b][r][c])), "symbols still to choose from keep their score, others none")
    tt, ts = su.pytorch_decoder_mask(torch.zeros(B, n, 1), i, heads)
    env.eq(env.L(tt.long()), [[[int(c > r) for c in range(T)] for r in range(T)]] * (B * heads), "places hidden from each other")
    TS = env.L(ts.long())
    for b in range(B):
        for h in range(heads):
            for r in range(T):
                env.eq(TS[b * heads + h][r], [ite(sor(*[I[b][q] == c + 2 for q in range(r + 1)]), 1, 0) for c in range(n)], "placed candidates are hidden")
    p = env.real("p", B, T, n + 2, lo=0, hi=1)
    P = env.L(p)
    prob, logp = env.L(su.per_symbol_to_per_seq_probs(p, i)), env.L(su.per_symbol_to_per_seq_log_probs(lg, i))
    for b in range(B):
        w = 1
        for t in range(T):
            w = w * pick_at(P[b][t], I[b][t])
        env.close(prob[b], [smax(w, 1e-40)], "probability of the sequence", 1e-5)
        env.eq(logp[b], [ssum(pick_at(L0[b][t], I[b][t]) for t in range(T))], "log probability of the sequence", 1e-4)


suite.case(bounds="1 sequence of 2 over 2 candidates, 2 heads", B=1, T=2, n=2, heads=2)(masks_case)
suite.case(bounds="2 sequences of 2 over 2 candidates, 1 head", B=2, T=2, n=2, heads=1)(masks_case)
suite.case(tier="thorough", bounds="1 sequence of 3 over 3 candidates, 2 heads", B=1, T=3, n=3, heads=2)(masks_case)


@suite.case(bounds="up to 4 lists under any of 2 names and ids")
def feature_config_case(env):
    """feature configurations refuse the same name or id twice"""
    f = lambda c, k: c(name=env.pick(f"name{k}", ["x", "y", "z"]), feature_id=int(env.pick(f"id{k}", [1, 2, 3])), id_mapping_name="t")
    a, b = f(rlt.IdListFeatureConfig, 0), f(rlt.IdScoreListFeatureConfig, 1)
    make = lambda: rlt.ModelFeatureConfig(id_mapping_config={"t": rlt.IdMapping(ids=[5])}, id_list_feature_configs=[a], id_score_list_feature_configs=[b])
    if a.name == b.name or a.feature_id == b.feature_id:
        env.refuses(make)
    else:
        c = make()
        env.check(c.id2name == {a.feature_id: a.name, b.feature_id: b.name} and c.name2id == {a.name: a.feature_id, b.name: b.feature_id}, "names and ids")


@suite.case(bounds="2 arrays")
def arrays_case(env):
    import numpy as np
    d = torch_utils.dict_to_tensor({"a": np.array([1.5, 2.0]), "b": np.array([[3], [4]])})
    env.check(sorted(d) == ["a", "b"] and d["a"].tolist() == [1.5, 2.0] and d["b"].tolist() == [[3], [4]], "arrays by name")
    net = torch.nn.Linear(2, 1)
    env.check(torch_utils.get_device(net) == torch.device("cpu"), "where a network lives")
