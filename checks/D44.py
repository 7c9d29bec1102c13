"""Network builders: the network built is the one the settings describe."""
import reagent.training  # noqa
from reagent.models.actor import FullyConnectedActor  # noqa
from reagent.models.mlp_scorer import MLPScorer
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.seq2slate import Seq2SlateTransformerNet
from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet
from reagent.net_builder import categorical_dqn, continuous_actor, discrete_actor, discrete_dqn, parametric_dqn, quantile_dqn, value
from reagent.net_builder.slate_ranking.slate_ranking_transformer import SlateRankingTransformer
from reagent.net_builder.slate_reward.slate_reward_gru import SlateRewardGRU
from reagent.net_builder.slate_reward.slate_reward_transformer import SlateRewardTransformer
from reagent.parameters import GRUParameters, NormalizationData, TransformerParameters
import inspect
from torch import nn
from torch.nn import functional as F
from checks.common import *
from checks.D35 import norm, sparse_config

suite = Suite("D44", ["inputs and weights lie in [-2, 2]"])
ACTS = {"relu": torch.relu, "tanh": torch.tanh, "sigmoid": torch.sigmoid, "linear": lambda x: x, "leaky_relu": F.leaky_relu}
S1 = norm(4, 9, 6)          # 1 + 2 + 1 columns
A1 = norm(3, 8)             # 1 + 2 columns
OWN = {nn.Linear: ("weight", "bias"), nn.LayerNorm: ("weight", "bias"), nn.BatchNorm1d: ("weight", "bias", "running_mean", "running_var"), nn.EmbeddingBag: ("weight",)}


def data(p):
    return NormalizationData(dense_normalization_parameters=p)


def fill(env, net, tag=""):
    """every layer gets arbitrary weights (and running statistics); the layers, in order"""
    out = []
    for i, m in enumerate(x for x in net.modules() if type(x) in OWN):
        vals = []
        for k in OWN[type(m)]:
            lo = 0.5 if k == "running_var" else -2
            t = env.real(f"{tag}{i}.{k}", *getattr(m, k).shape, lo=lo, hi=2)
            delattr(m, k)
            setattr(m, k, t)
            vals.append(t)
        out.append((type(m), vals))
    return out


def plan(sizes, acts, batch=False, layer=False, norm_last=False):
    """kinds and shapes of the layers"""
    out = []
    for i, (a, b) in enumerate(zip(sizes, sizes[1:])):
        if batch:
            out.append((nn.BatchNorm1d, (a,)))
        out.append((nn.Linear, (b, a)))
        if layer and (norm_last or i < len(acts) - 1):
            out.append((nn.LayerNorm, (b,)))
    return out


def through(env, x, found, sizes, acts, masks=(), keep=1.0, **kw):
    want = plan(sizes, acts, **kw)
    env.check([(k, tuple(v[0].shape)) for k, v in found] == want, "kinds and widths of the layers")
    masks, found, at = list(masks), list(found), 0
    for i, a in enumerate(acts):
        while found and found[0][0] is nn.BatchNorm1d:
            w, b, m, v = found.pop(0)[1]
            x = F.batch_norm(x, m, v, w, b, training=False)
        w, b = found.pop(0)[1]
        x = F.linear(x, w, b)
        if found and found[0][0] is nn.LayerNorm:
            w, b = found.pop(0)[1]
            x = F.layer_norm(x, (sizes[i + 1],), w, b)
        x = ACTS[a](x)
        if masks and i < len(acts) - 1:
            x = x * masks.pop(0) / keep
    env.check(not found, "no layer is left over")
    return x


def feat(x):
    return rlt.FeatureData(x)


def dropped(env, net, q, hidden, call):
    """runs net as in training: each hidden value is dropped with chance q, the others scaled up"""
    net.train()
    got = call()
    ms = env.draws("bernoulli")
    env.check(len(ms) == (hidden if q else 0), "how often values are dropped")
    for p in env.params("bernoulli"):
        env.eq(p, [[1 - q] * len(r) for r in p], "chance of being kept", 1e-5)
    return got, [env.mk([[unwrap(v) if env.sym else v for v in r] for r in m]) for m in ms]


def apart(env, make):
    """two networks built from the same settings share nothing, and the settings are as before"""
    b, build = make()
    import copy
    was = copy.deepcopy(vars(b))
    one, two = build(b), build(b)
    env.check(one is not two and not ({id(p) for p in one.parameters()} & {id(p) for p in two.parameters()}), "networks built twice share no weights")
    env.check(vars(b) == was, "building leaves the settings alone")
    return two


def dqn_case(env, sizes, acts, atoms=None, **kw):
    """discrete: state in, one value (or one vector) per action out"""
    drop, bn = kw.get("dropout_ratio", 0.0), kw.get("use_batch_norm", False)

    def make():
        if atoms:
            return quantile_dqn.quantile.Quantile(sizes=list(sizes), activations=list(acts), **kw), lambda b: b.build_q_network(data(S1), 2, atoms)
        return discrete_dqn.fully_connected.FullyConnected(sizes=list(sizes), activations=list(acts), **kw), lambda b: b.build_q_network(rlt.ModelFeatureConfig(), data(S1), 2)
    net = apart(env, make)
    x = env.real("x", 1, 4, lo=-2, hi=2)
    found = fill(env, net)
    net.eval()
    if drop:
        got, ms = dropped(env, net, drop, len(sizes), lambda: net(feat(x)))
    else:
        got, ms = net(feat(x)), []
    want = through(env, x, found, [4] + sizes + [2 * (atoms or 1)], acts + ["linear"], ms, 1 - drop, batch=bn)
    if atoms:
        want = want.reshape(1, 2, atoms)
    env.shape(got, tuple(want.shape), "values")
    env.close(env.L(got.reshape(-1)), env.L(want.reshape(-1)), "the layers asked for, in order", 1e-4)


for kw in (dict(sizes=[2], acts=["tanh"]), dict(sizes=[3, 2], acts=["relu", "sigmoid"]), dict(sizes=[2], acts=["relu"], use_batch_norm=True), dict(sizes=[2], acts=["leaky_relu"], dropout_ratio=0.25),
           dict(sizes=[], acts=[]), dict(sizes=[3], acts=["relu"], atoms=2), dict(sizes=[2], acts=["tanh"], atoms=3, dropout_ratio=0.25)):
    suite.case(bounds="4 state columns, 2 actions, one row", **kw)(dqn_case)


def c51_case(env, N, lo, hi):
    """distributional: the value is the mean of evenly spread values under the predicted distribution"""
    net = apart(env, lambda: (categorical_dqn.categorical.Categorical(sizes=[2], activations=["tanh"]), lambda b: b.build_q_network(data(S1), 2, N, lo, hi)))
    x = env.real("x", 1, 4, lo=-2, hi=2)
    found = fill(env, net)
    raw = through(env, x, found, [4, 2, 2 * N], ["tanh", "linear"]).reshape(1, 2, N)
    want = F.log_softmax(raw, -1)
    env.close(env.L(net.log_dist(feat(x)).reshape(-1)), env.L(want.reshape(-1)), "log-distribution", 1e-4)
    at = torch.tensor([lo + (hi - lo) * i / (N - 1) for i in range(N)])
    env.close(env.L(net(feat(x)).reshape(-1)), env.L((want.exp() * at).sum(2).reshape(-1)), "mean value", 1e-3)


suite.case(bounds="2 actions, 2 values", N=2, lo=-3, hi=1)(c51_case)
suite.case(bounds="2 actions, 3 values", N=3, lo=-3, hi=5)(c51_case)


def duel_case(env, atoms=None):
    if atoms:
        make = lambda: (quantile_dqn.dueling_quantile.DuelingQuantile(sizes=[3, 2], activations=["relu", "tanh"]), lambda b: b.build_q_network(data(S1), 2, atoms))
    else:
        make = lambda: (discrete_dqn.dueling.Dueling(sizes=[3, 2], activations=["relu", "tanh"]), lambda b: b.build_q_network(rlt.ModelFeatureConfig(), data(S1), 2))
    net = apart(env, make)
    x = env.real("x", 1, 4, lo=-2, hi=2)
    n = atoms or 1
    emb = through(env, x, fill(env, net.shared_network, "s"), [4, 3, 2], ["relu", "linear"])
    adv = through(env, emb, fill(env, net.advantage_network, "a"), [2, 1, 2 * n], ["tanh", "linear"]).reshape(1, 2, n)
    val = through(env, emb, fill(env, net.value_network, "v"), [2, 1, n], ["tanh", "linear"]).reshape(1, 1, n)
    got = net(feat(x))
    env.shape(got, (1, 2, atoms) if atoms else (1, 2), "values")
    want = val + adv - adv.mean(dim=(1, 2), keepdim=True)
    env.close(env.L(got.reshape(-1)), env.L(want.reshape(-1)), "state value beside advantage", 1e-3)


suite.case(bounds="4 state columns, 2 actions", atoms=None)(duel_case)
suite.case(bounds="4 state columns, 2 actions, 2 atoms", atoms=2)(duel_case)


def embed_case(env, drop):
    """lists of ids are embedded beside the dense features"""
    cfg = sparse_config()
    net = apart(env, lambda: (discrete_dqn.fully_connected_with_embedding.FullyConnectedWithEmbedding(sizes=[2], activations=["tanh"], embedding_dim=1, dropout_ratio=drop),
                              lambda b: b.build_q_network(cfg, data(S1), 2)))
    x = env.real("x", 1, 4, lo=-2, hi=2)
    found = fill(env, net)
    bags, rest = [f for f in found if f[0] is nn.EmbeddingBag], [f for f in found if f[0] is not nn.EmbeddingBag]
    env.check(sorted(tuple(v[0].shape) for _, v in bags) == [(2, 1), (3, 1)], "one table per mapping")
    tab = {v[0].shape[0]: v[0] for _, v in bags}
    one = torch.tensor([0])
    ix = {"visited": env.ints("visited", 1, lo=0, hi=2), "bought": env.ints("bought", 1, lo=0, hi=1), "liked": env.ints("liked", 1, lo=0, hi=2)}
    w = env.real("w", 1, lo=-2, hi=2)
    state = rlt.FeatureData(x, id_list_features={k: (one, ix[k]) for k in ("visited", "bought")}, id_score_list_features={"liked": (one, ix["liked"], w)})
    got, ms = dropped(env, net, drop, 1, lambda: net(state))
    cols = [tab[3][ix["visited"]], tab[2][ix["bought"]], tab[3][ix["liked"]] * w.reshape(1, 1), x]
    want = through(env, torch.cat(cols, 1), rest, [7, 2, 2], ["tanh", "linear"], ms, 1 - drop)
    env.close(env.L(got.reshape(-1)), env.L(want.reshape(-1)), "embeddings and dense features, then the layers", 1e-4)


suite.case(bounds="two lists and one scored list of one id each", drop=0.0)(embed_case)
suite.case(bounds="two lists and one scored list of one id each", drop=0.5)(embed_case)


def critic_case(env, bn, ln, out=None, sizes=(3, 2)):
    net = apart(env, lambda: (parametric_dqn.fully_connected.FullyConnected(sizes=list(sizes), activations=["relu", "tanh"][:len(sizes)], use_batch_norm=bn, use_layer_norm=ln),
                              lambda b: b.build_q_network(data(S1), data(A1)) if out is None else b.build_q_network(data(S1), data(A1), out)))
    x, a = env.real("x", 1, 4, lo=-2, hi=2), env.real("a", 1, 3, lo=-2, hi=2)
    found = fill(env, net)
    net.eval()
    want = through(env, torch.cat([x, a], 1), found, [7] + list(sizes) + [out or 1], ["relu", "tanh"][:len(sizes)] + ["linear"], batch=bn, layer=ln)
    got = net(feat(x), feat(a))
    env.shape(got, (1, out or 1), "value")
    env.close(env.L(got[0]), env.L(want[0]), "state and action, then the layers", 1e-4)


suite.case(bounds="4 state and 3 action columns", bn=False, ln=False)(critic_case)
suite.case(bounds="4 state and 3 action columns", bn=True, ln=False, sizes=(2,))(critic_case)
suite.case(bounds="4 state and 3 action columns", bn=False, ln=True, sizes=(2,), out=2)(critic_case)


def value_case(env, ln, out=None, sizes=(3, 2)):
    net = apart(env, lambda: (value.fully_connected.FullyConnected(sizes=list(sizes), activations=["relu", "tanh"][:len(sizes)], use_layer_norm=ln),
                              lambda b: b.build_value_network(data(S1)) if out is None else b.build_value_network(data(S1), out)))
    x = env.real("x", 1, 4, lo=-2, hi=2)
    found = fill(env, net)
    want = through(env, x, found, [4] + list(sizes) + [out or 1], ["relu", "tanh"][:len(sizes)] + ["linear"], layer=ln)
    got = net(x)
    env.shape(got, (1, out or 1), "value")
    env.close(env.L(got[0]), env.L(want[0]), "the layers asked for, in order", 1e-4)


suite.case(bounds="4 state columns", ln=False)(value_case)
suite.case(bounds="4 state columns, 2 values", ln=True, sizes=(2,), out=2)(value_case)


def actor_case(env, discrete, bn, ln, act, var):
    """deterministic policies: one column per action (or action feature), squashed as asked, with noise only if asked"""
    kw = dict(sizes=[2], activations=["relu"], use_batch_norm=bn, use_layer_norm=ln, action_activation=act, exploration_variance=var)
    if discrete:
        net = apart(env, lambda: (discrete_actor.fully_connected.FullyConnected(**kw), lambda b: b.build_actor(data(S1), 3)))
    else:
        b = continuous_actor.fully_connected.FullyConnected(**kw)
        env.check(b.default_action_preprocessing == "CONTINUOUS_ACTION", "how actions are scaled")
        net = apart(env, lambda: (b, lambda b: b.build_actor(data(S1), data(A1))))
    x = env.real("x", 1, 4, lo=-2, hi=2)
    found = fill(env, net)
    net.eval()
    before = len(env.draws("normal"))
    got = net(feat(x)).action
    want = through(env, x, found, [4, 2, 3], ["relu", act], batch=bn, layer=ln)
    zs = env.draws("normal")[before:]
    env.check(len(zs) == (1 if var else 0), "noise only if asked for")
    if var:
        lim = 1 - 1e-6
        want = (want + var * env.mk([[unwrap(v) if env.sym else v for v in r] for r in zs[0]])).clamp(-lim, lim)
    env.close(env.L(got[0]), env.L(want[0]), "the layers asked for, in order", 1e-4)


for kw in (dict(bn=False, ln=False, act="tanh", var=None), dict(bn=True, ln=False, act="linear", var=None), dict(bn=False, ln=True, act="sigmoid", var=None), dict(bn=False, ln=False, act="sigmoid", var=0.25)):
    for discrete in (True, False):
        suite.case(bounds="4 state columns, 3 actions", discrete=discrete, **kw)(actor_case)


def gauss_case(env, bn, ln, l2):
    b = continuous_actor.gaussian_fully_connected.GaussianFullyConnected(sizes=[2], activations=["relu"], use_batch_norm=bn, use_layer_norm=ln, use_l2_normalization=l2)
    env.check(b.default_action_preprocessing == "CONTINUOUS_ACTION", "how actions are scaled")
    net = apart(env, lambda: (b, lambda b: b.build_actor(data(S1), data(A1))))
    x = env.real("x", 1, 4, lo=-2, hi=2)
    body = fill(env, net.fc)
    net.eval()
    y = through(env, x, body, [4, 2, 6], ["relu", "linear"], batch=bn, layer=ln)
    loc, wide = y[:, :3], y[:, 3:]
    if ln:
        loc = F.layer_norm(loc, (3,), *fill(env, net.loc_layer_norm, "loc")[0][1])
        wide = F.layer_norm(wide, (3,), *fill(env, net.scale_layer_norm, "scale")[0][1])
    # where the mean action lies
    want = torch.tanh(loc).clamp(-1 + 1e-6, 1 - 1e-6)
    if l2:
        env.assume(env.L(loc)[0][0] > 0.125)
        want = want / (want ** 2).sum(dim=1, keepdim=True).sqrt()
    got_loc, got_wide = net._get_loc_and_scale_log(feat(x))
    env.close(env.L(got_loc[0]), env.L(loc[0]), "mean", 1e-3)
    env.close(env.L(got_wide[0]), env.L(wide.clamp(-20.0, 2.0)[0]), "log-spread", 1e-3)
    if not ln:
        with env.patch(net, "get_log_prob", lambda *a: None):
            got = net(feat(x))
        env.close(env.L(got.squashed_mean[0]), env.L(want[0]), "mean action", 1e-3)


for kw in (dict(bn=False, ln=False, l2=False), dict(bn=True, ln=False, l2=False), dict(bn=False, ln=True, l2=False), dict(bn=False, ln=False, l2=True)):
    suite.case(bounds="4 state and 3 action columns", **kw)(gauss_case)


def dirichlet_case(env, bn):
    b = continuous_actor.dirichlet_fully_connected.DirichletFullyConnected(sizes=[2], activations=["relu"], use_batch_norm=bn)
    env.check(b.default_action_preprocessing == "DO_NOT_PREPROCESS", "how actions are scaled")
    net = apart(env, lambda: (b, lambda b: b.build_actor(data(S1), data(A1))))
    x = env.real("x", 1, 4, lo=-2, hi=2)
    found = fill(env, net)
    net.eval()
    net(feat(x))
    want = through(env, x, found, [4, 2, 3], ["relu", "linear"], batch=bn).exp() + 1e-6
    env.close(env.params("dirichlet")[0][0], env.L(want[0]), "concentrations", 1e-3)


suite.case(bounds="4 state and 3 action columns", bn=False)(dirichlet_case)
suite.case(bounds="4 state and 3 action columns", bn=True)(dirichlet_case)


def refused_case(env):
    """as many activations as hidden layers, or the settings are refused"""
    n, k = int(env.inum("layers", 0, 3)), int(env.inum("activations", 0, 3))
    for cls in (discrete_dqn.fully_connected.FullyConnected, discrete_dqn.dueling.Dueling, discrete_dqn.fully_connected_with_embedding.FullyConnectedWithEmbedding, quantile_dqn.quantile.Quantile,
                quantile_dqn.dueling_quantile.DuelingQuantile, categorical_dqn.categorical.Categorical, discrete_actor.fully_connected.FullyConnected, continuous_actor.fully_connected.FullyConnected,
                continuous_actor.gaussian_fully_connected.GaussianFullyConnected, continuous_actor.dirichlet_fully_connected.DirichletFullyConnected, parametric_dqn.fully_connected.FullyConnected,
                value.fully_connected.FullyConnected):
        env.check(env.raises(lambda: cls(sizes=[2] * n, activations=["relu"] * k), AssertionError) == (n != k), f"{cls.__module__.split('.')[-2]} {cls.__name__}: sizes and activations match")


suite.case(bounds="up to 3 layers and activations")(refused_case)


def sequence_case(env, kind):
    """sequence models get every size asked for"""
    st, cd, cs, sl = (env.inum(n, 1, 64) for n in ("state", "candidate", "candidates", "slate"))
    made = {}
    n = {k: env.inum(k, 1, 64) for k in ("num_heads", "dim_model", "dim_feedforward", "num_stacked_layers", "state_embed_dim", "temperature", "action_dim", "num_hiddens", "num_hidden_layers")}

    def filled(p):
        for k in vars(p):
            if k in n:
                object.__setattr__(p, k, n[k])
        return p
    T = TransformerParameters(num_heads=1, dim_model=1, dim_feedforward=1, num_stacked_layers=1)
    cls = {"rank": Seq2SlateTransformerNet, "reward": Seq2SlateTransformerRewardNet, "gru": Seq2SlateGRURewardNet, "rnn": Seq2RewardNetwork}[kind]

    def init(self, *a, real=cls.__init__, **k):
        torch.nn.Module.__init__(self)
        made.update(inspect.signature(real).bind(self, *a, **k).arguments)
        made.pop("self")
    with env.patch(cls, "__init__", init):
        if kind == "rnn":
            b = filled(value.seq2reward_rnn.Seq2RewardNetBuilder())
            net = b.build_value_network(data(S1))
            want = {k: n[k] for k in ("action_dim", "num_hiddens", "num_hidden_layers")}
            want["state_dim"] = 4
        else:
            fit = bool(env.flag("whole"))
            b = {"rank": lambda: SlateRankingTransformer(transformer=filled(T)), "reward": lambda: SlateRewardTransformer(transformer=filled(T), fit_slate_wise_reward=fit),
                 "gru": lambda: SlateRewardGRU(gru=filled(GRUParameters(dim_model=1, num_stacked_layers=1)), fit_slate_wise_reward=fit)}[kind]()
            if kind == "gru":
                object.__setattr__(b, "gru", filled(b.gru))
            else:
                object.__setattr__(b, "transformer", filled(b.transformer))
            arch = None
            if kind == "rank":
                object.__setattr__(b, "temperature", n["temperature"])
                arch = env.pick("arch", list(type(b.output_arch)))
                object.__setattr__(b, "output_arch", arch)
            else:
                env.check(b.expect_slate_wise_reward == fit, "whether rewards are for the whole slate")
            net = (b.build_slate_ranking_network if kind == "rank" else b.build_slate_reward_network)(st, cd, cs, sl)
            want = {k: n[k] for k in (("dim_model", "num_stacked_layers") if kind == "gru" else ("num_heads", "dim_model", "dim_feedforward", "num_stacked_layers"))}
            want.update(state_dim=st, candidate_dim=cd, max_src_seq_len=cs, max_tgt_seq_len=sl)
            if kind == "rank":
                want.update(temperature=n["temperature"], state_embed_dim=n["state_embed_dim"], output_arch=arch)
    env.check(isinstance(net, cls), "kind of network")
    env.check(set(made) == set(want), "settings it is made with")
    for k, v in want.items():
        if k == "output_arch":
            env.check(made[k] is v, k)
        else:
            env.eq(made[k], v, k)


for kind in ("rank", "reward", "gru", "rnn"):
    suite.case(bounds="sizes up to 64", kind=kind)(sequence_case)


def scorer_case(env, B, N, concat, log, sizes, out=1):
    """each candidate is scored by itself, beside the user's features if asked"""
    U, C = 2, 1
    net = MLPScorer(input_dim=U + C if concat else C, layer_sizes=list(sizes), output_dim=out, concat=concat, log_transform=log)
    lo = 0.5 if log else -2
    u, c = env.real("u", B, U, lo=lo, hi=2), env.real("c", B, N, C, lo=lo, hi=2)
    ws = [v for _, v in fill(env, net)]
    got = net(rlt.FeatureData(u, candidate_docs=rlt.DocList(c)))
    env.shape(got, (B, N) if out == 1 else (B, N, out), "scores")
    f = (lambda t: t.clip(1e-12).log()) if log else (lambda t: t)
    for b in range(B):
        for i in range(N):
            x = f(torch.cat([u[b], c[b, i]]) if concat else c[b, i])
            for k, (w, bias) in enumerate(ws):
                x = F.linear(x, w, bias)
                if k < len(ws) - 1:
                    x = torch.relu(x)
            env.close(env.L(got[b, i].reshape(-1)), env.L(x), "score of a candidate", 1e-4)
    env.check(len(ws) == len(sizes) + 1, "how many layers")


suite.case(bounds="1 user, 2 candidates", B=1, N=2, concat=True, log=False, sizes=[2])(scorer_case)
suite.case(bounds="2 users, 2 candidates", B=2, N=2, concat=False, log=False, sizes=[])(scorer_case)
suite.case(bounds="1 user, 2 candidates, logarithms", B=1, N=2, concat=True, log=True, sizes=[2, 2], out=2)(scorer_case)
