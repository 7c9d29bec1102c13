"""Value networks: layer composition, dueling decomposition, action masks, batch-constrained filter."""
from reagent.models.bcq import BatchConstrainedDQN
from reagent.models.critic import FullyConnectedCritic
from reagent.models.dqn import FullyConnectedDQN
from reagent.models.dueling_q_network import DuelingQNetwork, ParametricDuelingQNetwork
from reagent.models.fully_connected_network import FullyConnectedNetwork
from checks.common import *
from checks.D02 import softmax_spec

suite = Suite("D14", ["network outputs lie in [-100, 100]"])
ACT = {"relu": lambda x: smax(x, 0), "leaky_relu": lambda x: ite(x > 0, x, x * Q(1, 100)), "linear": lambda x: x, "tanh": stanh, "sigmoid": ssigmoid}


def Q(a, b):
    from fractions import Fraction
    return Fraction(a, b) if explore_on() else a / b


def explore_on():
    from symex import explore
    return explore.CUR is not None


def weights(env, net, tag):
    """give every linear layer of net arbitrary weights; returns [(W, b)] in order"""
    out = []
    for i, m in enumerate(x for x in net.modules() if isinstance(x, torch.nn.Linear)):
        W, b = env.real(f"{tag}W{i}", *m.weight.shape, lo=-2, hi=2), env.real(f"{tag}b{i}", *m.bias.shape, lo=-2, hi=2)
        del m.weight, m.bias
        m.weight, m.bias = W, b
        out.append((env.L(W), env.L(b)))
    return out


def layers(x, ws, acts):
    for (W, b), a in zip(ws, acts):
        x = [ACT[a](ssum(w * v for w, v in zip(row, x)) + c) for row, c in zip(W, b)]
    return x


def fc_case(env, acts, atoms=None, kind="fc"):
    B = 1
    x = env.real("x", B, 2, lo=-2, hi=2)
    X = env.L(x)
    if kind == "fc":
        net = FullyConnectedNetwork([2] + [2] * len(acts), acts)
        ws = weights(env, net, "")
        got = net(x)
        want = [layers(r, ws, acts) for r in X]
    elif kind == "dqn":
        net = FullyConnectedDQN(2, 2, [2] * len(acts), acts, num_atoms=atoms)
        ws = weights(env, net, "")
        got = net(feat(x))
        want = [layers(r, ws, acts + ["linear"]) for r in X]
        env.shape(got, (B, 2, atoms) if atoms else (B, 2), "one value (or atom vector) per action")
        if not atoms:
            m = [bool(env.flag(f"m{i}")) for i in range(2)]
            masked = env.L(net(feat(x), torch.tensor([m])))
            for r, w in zip(masked, want):
                for v, u, ok in zip(r, w, m):
                    env.eq(v, u, "value of a possible action") if ok else env.le(v, -9e9, "an impossible action is hopeless")
    else:
        a = env.real("a", B, 1, lo=-2, hi=2)
        net = FullyConnectedCritic(2, 1, [2] * len(acts), acts)
        ws = weights(env, net, "")
        got = net(feat(x), feat(a))
        want = [layers(r + q, ws, acts + ["linear"]) for r, q in zip(X, env.L(a))]
    env.eq(got, want, "layers compose: activation(weights * input + bias)")


for acts in (["relu"], ["tanh", "linear"], ["leaky_relu", "sigmoid"], ["linear", "relu"]):
    suite.case(bounds="1 row of 2 features, widths 2, any weights", acts=acts)(fc_case)
suite.case(bounds="2 actions, 1 hidden layer", acts=["relu"], kind="dqn")(fc_case)
suite.case(bounds="2 actions, 2 atoms", acts=["relu"], kind="dqn", atoms=2)(fc_case)
suite.case(bounds="2 state features, 1 action feature", acts=["relu"], kind="critic")(fc_case)


class Body(torch.nn.Module):
    def __init__(self, env, name, shape, proto):
        super().__init__()
        self.net, self.proto = env.net(name, shape, bound=(-100, 100)), proto

    def input_prototype(self):
        return self.proto()

    def forward(self, *xs):
        return self.net(*[x.float_features for x in xs])


def ev(env, name, row, n):
    return [wrap(x) for x in env.net_eval(name, [unwrap(x) if env.sym else x for x in row], n, -100, 100)]


def duel_case(env, B, A, N=None):
    proto = lambda: rlt.FeatureData(torch.zeros(1, 2))
    n = N or 1
    net = DuelingQNetwork(shared_network=Body(env, "sh", 2, proto), advantage_network=Body(env, "adv", (A, N) if N else A, proto),
                          value_network=Body(env, "val", (1, N) if N else 1, proto))
    x = env.real("x", B, 2)
    got = env.L(net(feat(x)))
    for b in range(B):
        e = ev(env, "sh", env.L(x)[b], 2)
        adv, val = ev(env, "adv", e, A * n), ev(env, "val", e, n)
        mean = ssum(adv) / (A * n)
        g = got[b] if N else [[v] for v in got[b]]
        for i in range(A):
            for k in range(n):
                env.eq(g[i][k], val[k] + adv[i * n + k] - mean, "value + centred advantage")
        env.eq(ssum(v for r in g for v in r) / (A * n), ssum(val) / n, "advantages average out")


suite.case(bounds="2 states, 4 actions", B=2, A=4)(duel_case)
suite.case(bounds="1 state, 2 actions, 2 atoms", B=1, A=2, N=2)(duel_case)


def pduel_case(env, B):
    proto = lambda: rlt.FeatureData(torch.zeros(1, 2))
    net = ParametricDuelingQNetwork(shared_network=Body(env, "sh", 2, proto), value_network=Body(env, "val", 1, proto),
                                    advantage_network=Body(env, "adv", 1, lambda: (rlt.FeatureData(torch.zeros(1, 2)), rlt.FeatureData(torch.zeros(1, 1)))))
    x, a = env.real("x", B, 2), env.real("a", B, 1)
    got = env.L(net(feat(x), feat(a)))
    for b in range(B):
        e = ev(env, "sh", env.L(x)[b], 2)
        env.eq(got[b][0], ev(env, "val", e, 1)[0] + ev(env, "adv", e + env.L(a)[b], 1)[0], "value + advantage of (embedded state, action)")


suite.case(bounds="2 states", B=2)(pduel_case)


def make_case(env, kind, atoms=None):
    """the factory wires the branches in the declared order"""
    x = env.real("x", 1, 2, lo=-2, hi=2)
    row = env.L(x)[0]
    if kind == "discrete":
        net = DuelingQNetwork.make_fully_connected(2, 2, [2, 2], ["relu", "tanh"], num_atoms=atoms)
        act = []
    else:
        net = ParametricDuelingQNetwork.make_fully_connected(2, 1, [2, 2], ["relu", "tanh"])
        a = env.real("a", 1, 1, lo=-2, hi=2)
        act = env.L(a)[0]
    sh = weights(env, net.shared_network, "s")
    ad = weights(env, net.advantage_network, "a")
    va = weights(env, net.value_network, "v")
    got = net(feat(x)) if kind == "discrete" else net(feat(x), feat(a))
    e = layers(row, sh, ["relu", "linear"])
    adv, val = layers(e + act, ad, ["tanh", "linear"]), layers(e, va, ["tanh", "linear"])
    if kind == "discrete":
        n = atoms or 1
        mean = ssum(adv) / len(adv)
        env.eq(got, [val[i % n] + v - mean for i, v in enumerate(adv)], "value + centred advantage")
    else:
        env.eq(got, [val[0] + adv[0]], "value + advantage")


suite.case(bounds="layers 2-2, any weights", kind="discrete")(make_case)
suite.case(bounds="layers 2-2, 2 atoms, any weights", kind="discrete", atoms=2)(make_case)
suite.case(bounds="layers 2-2, any weights", kind="parametric")(make_case)


def bcq_case(env, B, A, thr):
    x = env.real("x", B, 1)
    q = Body(env, "q", A, None)
    im = env.net("im", A, bound=(-8, 8))
    got = env.L(BatchConstrainedDQN(1, q, im, thr)(feat(x)))
    for b in range(B):
        Qs = ev(env, "q", env.L(x)[b], A)
        im_ = [wrap(v) for v in env.net_eval("im", [unwrap(v) if env.sym else v for v in env.L(x)[b]], A, -8, 8)]
        P = softmax_spec(im_, [1] * A, 1.0)
        top = smax(*P)
        for i in range(A):
            rare = P[i] < thr * top
            env.eq(got[b][i], ite(rare, Qs[i] - 10000000000, Qs[i]), "actions the behaviour policy avoids are hopeless, others keep their value")


suite.case(bounds="1 state, 3 actions", B=1, A=3, thr=0.25)(bcq_case)
suite.case(bounds="2 states, 2 actions", B=2, A=2, thr=0.5)(bcq_case)
suite.case(bounds="1 state, 2 actions", B=1, A=2, thr=0.0)(bcq_case)
