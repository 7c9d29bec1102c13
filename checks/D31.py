"""World models: the mixture-density network, the sequence-to-reward network, their trainers and their evaluators."""
import itertools
import types
import numpy as np
import torch.nn as nn
from reagent.evaluation import world_model_evaluator as wme
from reagent.evaluation.compress_model_evaluator import CompressModelEvaluator
from reagent.evaluation.seq2reward_evaluator import Seq2RewardEvaluator
from reagent.models import mdn_rnn
from reagent.models.mdn_rnn import MDNRNN, MDNRNNMemoryPool, gmm_loss
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.world_model import MemoryNetwork
from reagent.parameters import MDNRNNTrainerParameters, Seq2RewardTrainerParameters
from reagent.training.utils import gen_permutations
from reagent.training.world_model.compress_model_trainer import CompressModelTrainer
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.training.world_model import seq2reward_trainer as s2r
from checks.common import *

suite = Suite("D31", ["recurrent layers return arbitrary hidden states; the networks' outputs for a batch are arbitrary numbers with one trainable offset each",
                      "the optimizer records the gradient it is handed", "widths lie in [1/4, 4], log-weights in [-3, 0], states and rewards in [-4, 4]"])

LOG2PI = float(torch.tensor(np.log(np.sqrt(2 * np.pi))))


class Opt:
    """records the gradients at every step"""
    made = []

    def __init__(self, params, lr=None, **kw):
        self.params, self.lr, self.grads = list(params), lr, []
        Opt.made.append(self)

    def zero_grad(self):
        for p in self.params:
            p.grad = None

    def step(self):
        self.grads.append([None if p.grad is None else p.grad.clone() for p in self.params])


def built(env, make):
    Opt.made = []
    with env.patch(torch.optim, "Adam", Opt):
        r = make()
    return r, list(Opt.made)


def stale(opts):
    """gradients left over from something else"""
    for o in opts:
        for p in o.params:
            p.grad = torch.full(tuple(p.shape), 7.0)


def data(t):
    return t.detach()


def logsum(gs):
    m = gs[0]
    for g in gs[1:]:
        m = smax(m, g)
    return m + slog(ssum(sexp(g - m) for g in gs))


def log_mix(x, mus, sig, lp):
    """log of the mixture density at x"""
    return logsum([l + ssum(-(a - m) * (a - m) / (2 * s * s) - slog(s) - LOG2PI for a, m, s in zip(x, ms, ss)) for ms, ss, l in zip(mus, sig, lp)])


def gmm_case(env, S, B, K, D):
    """minus the log of the mixture density, per step and example, or its mean"""
    x, mu = env.real("x", S, B, D, lo=-4, hi=4), env.real("mu", S, B, K, D, lo=-4, hi=4)
    sg = env.real("sigma", S, B, K, D, lo=0.25, hi=4) if K == 1 else env.const([[[[(1.0, 0.5, 2.0)[(k + s + d) % 3] for d in range(D)] for k in range(K)] for b in range(B)] for s in range(S)])
    lp = env.real("logpi", S, B, K, lo=-3, hi=0)
    X, M, G, P = env.L(x), env.L(mu), env.L(sg), env.L(lp)
    want = [[-log_mix(X[s][b], M[s][b], G[s][b], P[s][b]) for b in range(B)] for s in range(S)]
    each = gmm_loss(x, mu, sg, lp, reduce=False)
    env.shape(each, (S, B), "loss per step and example")
    env.eq(each, want, "loss per step and example", 1e-3)
    env.eq(gmm_loss(x, mu, sg, lp), ssum(v for r in want for v in r) / (S * B), "mean loss", 1e-3)


suite.case(bounds="2 steps, 2 examples, one Gaussian over 2 features", S=2, B=2, K=1, D=2)(gmm_case)
suite.case(bounds="2 steps, 1 example, 2 Gaussians", S=2, B=1, K=2, D=1)(gmm_case)
suite.case(bounds="1 step, 2 examples, 2 Gaussians over 2 features", S=1, B=2, K=2, D=2)(gmm_case)
suite.case("thorough", bounds="1 step, 1 example, 3 Gaussians over 2 features", S=1, B=1, K=3, D=2)(gmm_case)


class RNN(nn.Module):
    """a recurrent layer: arbitrary hidden states, remembered inputs"""

    def __init__(self, out, last=None):
        super().__init__()
        self.out, self.last, self.seen = out, last, []

    def forward(self, x, hidden=None):
        self.seen.append((x, hidden))
        return self.out, self.last


def mdn_case(env, S, B, K, D, A):
    """the network splits the recurrent output into means, widths (positive), weights (summing to one), reward and non-termination, each in its own place"""
    H = (2 * D + 1) * K + 2
    net = MemoryNetwork(state_dim=D, action_dim=A, num_hiddens=3, num_hidden_layers=2, num_gaussians=K)
    env.check(net.mdnrnn.gmm_linear.out_features == H and net.mdnrnn.rnn.input_size == D + A, "sizes")
    raw = env.real("raw", S, B, H, lo=-2, hi=2)
    hid = torch.arange(S * B * 3).reshape(S, B, 3).float()
    last, cell = torch.ones(2, B, 3), torch.zeros(2, B, 3)
    net.mdnrnn.rnn, net.mdnrnn.gmm_linear = RNN(hid, (last, cell)), RNNHead(raw)
    net.mdnrnn.anchor = nn.Parameter(torch.zeros(1))
    st, ac = env.real("st", S, B, D), env.real("ac", S, B, A)
    o = net(rlt.FeatureData(st), rlt.FeatureData(ac))
    x, h = net.mdnrnn.rnn.seen[0]
    env.eq(x, [[a + s for a, s in zip(ra, rs)] for ra, rs in zip(env.L(ac), env.L(st))], "actions then states are fed")
    env.check(h is None and net.mdnrnn.gmm_linear.seen[0] is hid, "each step's hidden state is read out")
    env.check(o.all_steps_lstm_hidden is hid and o.last_step_lstm_hidden is last and o.last_step_lstm_cell is cell, "hidden states are returned")
    R = env.L(raw)
    for s in range(S):
        for b in range(B):
            r = R[s][b]
            env.eq(env.L(o.mus)[s][b], [[r[k * D + d] for d in range(D)] for k in range(K)], "means")
            env.eq(env.L(o.sigmas)[s][b], [[sexp(r[K * D + k * D + d]) for d in range(D)] for k in range(K)], "widths")
            w = r[2 * K * D:2 * K * D + K]
            Z = ssum(sexp(v) for v in w)
            env.eq([sexp(v) for v in env.L(o.logpi)[s][b]], [sexp(v) / Z for v in w], "weights", 1e-4)
            env.eq(env.L(o.reward)[s][b], r[-2], "reward")
            env.eq(env.L(o.not_terminal)[s][b], r[-1], "non-termination")
    h, c = net.mdnrnn.get_initial_hidden_state(B)
    env.eq(h, torch.zeros(2, B, 3).tolist(), "initial hidden state")
    env.eq(c, torch.zeros(2, B, 3).tolist(), "initial cell")


class RNNHead(nn.Module):
    def __init__(self, out):
        super().__init__()
        self.out, self.seen = out, []

    def forward(self, x):
        self.seen.append(x)
        return self.out


suite.case(bounds="2 steps, 2 examples, 2 Gaussians over 2 features", S=2, B=2, K=2, D=2, A=1)(mdn_case)
suite.case(bounds="1 step, 1 example, 3 Gaussians", S=1, B=1, K=3, D=1, A=2)(mdn_case)


class World(nn.Module):
    """a world model with arbitrary outputs and a trainable offset for each"""

    def __init__(self, **outs):
        super().__init__()
        self.mdnrnn = nn.Module()
        self.outs, self.seen, self.modes = outs, [], []
        for k, v in outs.items():
            self.mdnrnn.register_parameter(k, nn.Parameter(torch.zeros(tuple(v.shape))))

    def forward(self, state, action):
        self.seen.append((state, action))
        self.modes.append(self.mdnrnn.training)
        return types.SimpleNamespace(**{k: v + getattr(self.mdnrnn, k) for k, v in self.outs.items()})


def world_batch(st, ac, ns, r, nt, **kw):
    return rlt.MemoryNetworkInput(state=rlt.FeatureData(st), action=ac, next_state=rlt.FeatureData(ns), reward=r, time_diff=torch.ones(1), not_terminal=nt, step=None, **kw)


def mdn_train_case(env, S, B, D, last, weights):
    """the loss is the weighted sum of the mixture loss (over state size + 2), the squared reward error and the cross entropy of non-termination,
    over all steps or only the last; it is what the optimizer descends"""
    K = 1
    wr, ws, wn = weights
    mu, sg, lp = env.real("mu", S, B, K, D, lo=-4, hi=4), env.real("sigma", S, B, K, D, lo=0.25, hi=4), torch.zeros(S, B, K)
    rs, nts = env.real("rs", S, B, lo=-4, hi=4), env.real("nts", S, B, lo=-3, hi=3)
    net = World(mus=mu, sigmas=sg, logpi=lp, reward=rs, not_terminal=nts)
    tr, (opt,) = built(env, lambda: MDNRNNTrainer(net, MDNRNNTrainerParameters(reward_loss_weight=wr, next_state_loss_weight=ws, not_terminal_loss_weight=wn, fit_only_one_next_step=last,
                                                                               num_gaussians=K, learning_rate=0.5)))
    env.check(opt.lr == 0.5 and [id(p) for p in opt.params] == [id(p) for p in net.mdnrnn.parameters()], "the optimizer owns the world model")
    st, ac, ns = torch.zeros(S, B, D), torch.zeros(S, B, 1), env.real("ns", S, B, D, lo=-4, hi=4)
    r, nt = env.real("r", S, B, lo=-4, hi=4), env.mask("nt", S, B)
    x = world_batch(st, ac, ns, r, nt)
    net.mdnrnn.eval()
    stale([opt])
    out = tr.train(x)
    env.check(net.modes == [True] and net.seen[0][0] is x.state and net.seen[0][1].float_features is ac, "the batch is fed in training mode")
    at = [(s, b) for s in (range(S - 1, S) if last else range(S)) for b in range(B)]
    N = len(at)
    MU, SG, RS, NT, X, R, T = (env.L(v) for v in (mu, sg, rs, nts, ns, r, nt))
    gmm = -ws * ssum(log_mix(X[s][b], MU[s][b], SG[s][b], [0]) for s, b in at) / N
    mse_ = wr * ssum((RS[s][b] - R[s][b]) * (RS[s][b] - R[s][b]) for s, b in at) / N
    bce = -wn * ssum(T[s][b] * slog(ssigmoid(NT[s][b])) + (1 - T[s][b]) * slog(1 - ssigmoid(NT[s][b])) for s, b in at) / N
    env.close([out["gmm"]], [gmm], "mixture loss", 1e-3)
    env.eq(out["mse"], mse_, "reward loss", 1e-3)
    env.close([out["bce"]], [bce], "non-termination loss", 1e-3)
    env.close([out["loss"]], [gmm / (D + 2) + mse_ + bce], "loss", 1e-3)
    env.check(len(opt.grads) == 1, "one step")
    g = dict(zip([k for k, _ in net.mdnrnn.named_parameters()], opt.grads[0]))
    env.eq(g["reward"], [[2 * wr * (RS[s][b] - R[s][b]) / N if (s, b) in at else 0 for b in range(B)] for s in range(S)], "reward gradient", 1e-3)
    env.eq(g["not_terminal"], [[wn * (ssigmoid(NT[s][b]) - T[s][b]) / N if (s, b) in at else 0 for b in range(B)] for s in range(S)], "non-termination gradient", 1e-3)
    env.eq(g["mus"], [[[[-ws * (X[s][b][d] - MU[s][b][0][d]) / (SG[s][b][0][d] * SG[s][b][0][d]) / N / (D + 2) if (s, b) in at else 0 for d in range(D)]] for b in range(B)] for s in range(S)],
           "mean gradient", 1e-3)
    for q, k in ((tr.cum_loss, "loss"), (tr.cum_gmm, "gmm"), (tr.cum_bce, "bce"), (tr.cum_mse, "mse")):
        env.eq(list(q), [out[k]], "history of losses")
    raw = tr.get_loss(x)
    env.close([raw["loss"]], [gmm + mse_ + bce], "unscaled loss", 1e-3)


suite.case(bounds="2 steps, 2 examples, 1 feature", S=2, B=2, D=1, last=False, weights=(1.0, 1.0, 1.0))(mdn_train_case)
suite.case(bounds="2 steps, 1 example, 2 features, weighted, last step only", S=2, B=1, D=2, last=True, weights=(2.0, 0.5, 3.0))(mdn_train_case)


def pool_case(env, cap, n, k, S=2):
    """the pool keeps the most recent episodes; samples are kept episodes, transposed to time first, every field from the same one"""
    pool = MDNRNNMemoryPool(cap)
    st, ns = env.real("st", n, S, 2), env.real("ns", n, S, 2)
    ac, r, nt = env.real("ac", n, S, 1), env.real("r", n, S), env.mask("nt", n, S)
    for i in range(n):
        pool.insert_into_memory(st[i], ac[i], ns[i], r[i], nt[i])
        env.check(pool.memory_size == min(i + 1, cap), "size")
    ask = []
    size = min(n, cap)
    picks = [env.pick(f"i{j}", list(range(size))) for j in range(k)]
    with env.patch(mdn_rnn.np.random, "randint", lambda m, size=None: ask.append((m, size)) or np.array(picks)):
        o = pool.sample_memories(k)
    env.check(ask == [(size, k)], "any kept episode may be drawn")
    at = [n - size + i for i in picks]
    for got, src, label in ((o.state.float_features, st, "states"), (o.action, ac, "actions"), (o.next_state.float_features, ns, "next states"), (o.reward, r, "rewards"),
                            (o.not_terminal, nt, "non-termination")):
        V = env.L(src)
        env.eq(got, [[V[i][s] for i in at] for s in range(S)], label)
    env.eq(o.time_diff, [[1] * k] * S, "time differences")


suite.case(bounds="3 episodes, capacity 2, 2 drawn", cap=2, n=3, k=2)(pool_case)
suite.case(bounds="2 episodes, capacity 3, 3 drawn", cap=3, n=2, k=3)(pool_case)


def s2r_net_case(env, S, B, D, A, valid):
    """the state sets the recurrent layer's initial hidden state; the answer is read out at the last valid step"""
    net = Seq2RewardNetwork(D, A, 2, 2)
    hs = env.real("hs", S, B, 2, lo=-4, hi=4)
    net.rnn = RNN(hs, None)
    W, c = [[0.5, -1.5]], [0.25]
    V, d = [[1.0, -0.5][:D], [2.0, 0.75][:D]], [0.5, -1.0]
    for p, v in ((net.lstm_linear.weight, W), (net.lstm_linear.bias, c), (net.map_linear.weight, V), (net.map_linear.bias, d)):
        p.data.copy_(torch.tensor(v))
    st, ac = env.real("st", S, B, D, lo=-4, hi=4), env.real("ac", S, B, A, lo=-4, hi=4)
    o = net(rlt.FeatureData(st), rlt.FeatureData(ac), None if valid is None else torch.tensor(valid)).acc_reward
    x, (h, cell) = net.rnn.seen[0]
    env.eq(x, env.L(ac), "actions are fed")
    h0 = [[ssum(v * s for v, s in zip(V[k], env.L(st)[0][b])) + d[k] for k in range(2)] for b in range(B)]
    env.eq(h, [h0, h0], "initial hidden state")
    env.eq(cell, [[[0] * 2] * B] * 2, "initial cell")
    at = [S - 1] * B if valid is None else [v - 1 for v in valid]
    env.eq(o, [[ssum(w * y for w, y in zip(W[0], env.L(hs)[at[b]][b])) + c[0]] for b in range(B)], "accumulated reward")


suite.case(bounds="3 steps, 2 examples", S=3, B=2, D=2, A=2, valid=None)(s2r_net_case)
suite.case(bounds="3 steps, 2 examples of lengths 1 and 3", S=3, B=2, D=1, A=2, valid=[1, 3])(s2r_net_case)


class Seq(nn.Module):
    """answers by an arbitrary function of the initial state and the action sequence, plus a trainable offset"""

    def __init__(self, env, D):
        super().__init__()
        self.env, self.state_dim, self.seen, self.modes = env, D, [], []
        self.theta = nn.Parameter(torch.zeros(1))

    def value(self, state, actions):
        row = list(state) + [v for a in actions for v in a]
        return wrap(self.env.net_eval("seq", [unwrap(v) if self.env.sym else v for v in row], 1, -4, 4)[0])

    def forward(self, state, action, valid=None):
        self.seen.append((state, action, valid))
        self.modes.append(self.training)
        s, a = self.env.L(state.float_features), self.env.L(action.float_features)
        out = [self.value(s[0][b], [a[t][b] for t in range(len(a) if valid is None else len(a))]) for b in range(len(s[0]))]
        return rlt.Seq2RewardOutput(acc_reward=self.env.mk([[unwrap(v) if self.env.sym else v] for v in out]) + self.theta)


def plans(n, steps):
    return [[[1.0 if a == i else 0.0 for i in range(n)] for a in p] for p in itertools.product(range(n), repeat=steps)]


def best_values(net, state, n, steps):
    """per first action, the best value over the plans that start with it"""
    r = []
    for a in range(n):
        vs = [net.value(state, p) for p in plans(n, steps) if p[0][a] == 1]
        m = vs[0]
        for v in vs[1:]:
            m = smax(m, v)
        r.append(m)
    return r


def plan_case(env, B, n, steps, D=1):
    """planning: the value of an action is the best value over all action sequences starting with it"""
    perm = gen_permutations(steps, n)
    env.check(sorted(map(str, perm.transpose(0, 1).tolist())) == sorted(map(str, plans(n, steps))), "all action sequences")
    net, st = Seq(env, D), env.real("st", B, D, lo=-4, hi=4)
    q = s2r.get_Q(net, st, perm)
    env.shape(q, (B, n), "values")
    env.check(not q.requires_grad, "no gradient flows")
    env.eq(q, [best_values(net, s, n, steps) for s in env.L(st)], "values")


suite.case(bounds="2 states, 2 actions, 2 steps", B=2, n=2, steps=2)(plan_case)
suite.case(bounds="2 states, 3 actions, 1 step", B=2, n=3, steps=1)(plan_case)
suite.case(bounds="1 state, 3 actions, 2 steps", B=1, n=3, steps=2)(plan_case)
suite.case(bounds="1 state, 2 actions, 3 steps", B=1, n=2, steps=3)(plan_case)


class Head(nn.Module):
    """arbitrary outputs for a batch with trainable offsets"""

    def __init__(self, out):
        super().__init__()
        self.out, self.seen, self.modes = out, [], []
        self.theta = nn.Parameter(torch.zeros(tuple(out.shape)))

    def forward(self, x):
        self.seen.append(x)
        self.modes.append(self.training)
        return self.out + self.theta


def s2r_trainer(env, net, n, steps, gamma, view, head):
    def make():
        with env.patch(s2r, "FullyConnectedNetwork", lambda sizes, acts, **kw: head):
            return s2r.Seq2RewardTrainer(net, Seq2RewardTrainerParameters(multi_steps=steps, action_names=[str(i) for i in range(n)], gamma=gamma, view_q_value=view, learning_rate=0.25))
    return built(env, make)


def s2r_spec(env, net, st, ac, r, lens, gamma, lg):
    S, B = len(ac), len(ac[0])
    pred = [net.value(st[0][b], [ac[t][b] for t in range(S)]) for b in range(B)]
    target = [ssum(gamma ** t * r[t][b] for t in range(lens[b])) for b in range(B)]
    err = [p - t for p, t in zip(pred, target)]
    ce = ssum(slog(ssum(sexp(v) for v in lg[b])) - lg[b][lens[b] - 1] for b in range(B)) / B
    return ssum(e * e for e in err) / B, ce, ssum(2 * e for e in err) / B


def s2r_train_case(env, S, B, n, gamma, view):
    """the network descends the squared error to the discounted rewards up to each example's valid length; the step network its cross entropy on that length;
    reported values are the planner's, averaged"""
    net, lg = Seq(env, 1), env.real("lg", B, S, lo=-2, hi=2)
    head = Head(lg)
    tr, opts = s2r_trainer(env, net, n, S, gamma, view, head)
    st, r = env.real("st", S, B, 1, lo=-4, hi=4), env.real("r", S, B, lo=-4, hi=4)
    ai = torch.tensor([[(s + b) % n for b in range(B)] for s in range(S)])
    ac = torch.nn.functional.one_hot(ai, n).float()
    lens = [env.pick(f"len{b}", list(range(1, S + 1))) for b in range(B)]
    x = world_batch(st, ac, st, r, torch.ones(S, B), valid_next_seq_len=torch.tensor(lens).reshape(B, 1))
    told = []
    tr.notify_observers = lambda **kw: told.append(kw)
    stale(opts)
    with env.patch(s2r.logger, "info", lambda *a: None):
        m, c, q = tr.train(x)
    mse_, ce, grad = s2r_spec(env, net, env.L(st), ac.tolist(), env.L(r), lens, gamma, env.L(lg))
    env.eq(m, mse_, "squared error", 1e-3)
    env.close([c], [ce], "cross entropy", 1e-3)
    env.check(net.seen[0][0] is x.state and head.seen[0].shape == (B, 1), "the first state is fed to the step network")
    env.eq(head.seen[0], env.L(st)[0], "the first state is fed to the step network")
    env.eq(net.seen[0][2], lens, "valid lengths are handed on")
    by = {id(o.params[0]): o for o in opts}
    env.check(len(opts) == 2 and all(len(o.grads) == 1 and o.lr == 0.25 for o in opts), "each optimizer steps once")
    env.eq(by[id(net.theta)].grads[0][0], [grad], "gradient of the reward network", 1e-3)
    want = []
    for b in range(B):
        e = [sexp(v) for v in env.L(lg)[b]]
        want.append([(v / ssum(e) - (1 if k == lens[b] - 1 else 0)) / B for k, v in enumerate(e)])
    env.eq(by[id(head.theta)].grads[0][0], want, "gradient of the step network", 1e-3)
    if view:
        vals = [best_values(net, s, n, S) for s in env.L(st)[0]]
        want = [ssum(v[a] for v in vals) / B for a in range(n)]
    else:
        want = [0] * n
    env.eq(q, want, "reported values", 1e-4)
    env.check(len(told) == 1, "observers are told once")
    env.eq(told[0]["mse_loss"], m, "observed error")
    env.eq(told[0]["step_entropy_loss"], c, "observed cross entropy")
    env.eq(told[0]["q_values"], [want], "observed values", 1e-4)


suite.case(bounds="3 steps, 2 examples of any valid lengths", S=3, B=2, n=2, gamma=0.5, view=False)(s2r_train_case)
suite.case(bounds="2 steps, 1 example, values viewed", S=2, B=1, n=2, gamma=0.75, view=True)(s2r_train_case)
suite.case(bounds="2 steps, 2 examples, values viewed, no discount", S=2, B=2, n=2, gamma=1.0, view=True)(s2r_train_case)


def step_case(env, B, S):
    """the predicted probabilities of the remaining steps are the softmax of the step network at the first state"""
    lg, st = env.real("lg", B, S, lo=-2, hi=2), env.real("st", 2, B, 1)
    head = Head(lg)
    p = s2r.get_step_prediction(head, world_batch(st, torch.zeros(2, B, 1), torch.zeros(2, B, 1), torch.zeros(2, B), torch.ones(2, B)))
    env.eq(head.seen[0], env.L(st)[0], "first state")
    for got, l in zip(env.L(p), env.L(lg)):
        e = [sexp(v) for v in l]
        env.eq(got, [v / ssum(e) for v in e], "probabilities", 1e-4)


suite.case(bounds="2 examples, 3 steps", B=2, S=3)(step_case)


def apart(env, vals):
    for i in range(len(vals)):
        for j in range(i):
            env.assume(sor(vals[i] < vals[j] - 0.01, vals[i] > vals[j] + 0.01))


def compress_case(env, B, n, steps, evaluate):
    """the compressed policy descends the squared error to the planner's values; accuracy is the share of states whose best action agrees;
    evaluation reports the same, the mean values and the share of states each action is best in, without training"""
    net, out = Seq(env, 1), env.real("out", B, n, lo=-4, hi=4)
    head = Head(out)
    tr, (opt,) = built(env, lambda: CompressModelTrainer(head, net, Seq2RewardTrainerParameters(multi_steps=steps, action_names=[str(i) for i in range(n)], compress_model_learning_rate=0.125,
                                                                                                compress_model_batch_size=7)))
    env.check(opt.lr == 0.125 and opt.params == [head.theta] and tr.minibatch_size == 7, "the optimizer owns the compressed policy")
    st = env.real("st", 2, B, 1, lo=-4, hi=4)
    x = world_batch(st, torch.zeros(2, B, 1), torch.zeros(2, B, 1), torch.zeros(2, B), torch.ones(2, B))
    Q = [best_values(net, s, n, steps) for s in env.L(st)[0]]
    O = env.L(out)
    for b in range(B):
        apart(env, Q[b])
        apart(env, O[b])
    told = []
    tr.notify_observers = lambda **kw: told.append(kw)
    mse_ = ssum((o - q) * (o - q) for ro, rq in zip(O, Q) for o, q in zip(ro, rq)) / (B * n)
    acc = ssum(ite(argmax_first(o) == argmax_first(q), 1, 0) for o, q in zip(O, Q)) / B
    if evaluate:
        ev = CompressModelEvaluator(tr)
        ev.notify_observers = lambda **kw: told.append(kw)
        head.train(True)
        m, qv, dist, a = ev.evaluate(x)
        env.check(head.modes == [False] and head.training and not opt.grads, "evaluated in evaluation mode, which is restored")
        env.eq(qv, [ssum(q[k] for q in Q) / B for k in range(n)], "mean values", 1e-4)
        env.eq(dist, [ssum(ite(argmax_first(q) == k, 1, 0) for q in Q) / B for k in range(n)], "share of each action", 1e-4)
        env.eq(told[0]["q_values"], [qv], "observed values")
        env.eq(told[0]["action_distribution"], [dist], "observed shares")
    else:
        stale([opt])
        m, a = tr.train(x)
        env.check(len(opt.grads) == 1, "one step")
        env.eq(opt.grads[0][0], [[2 * (o - q) / (B * n) for o, q in zip(ro, rq)] for ro, rq in zip(O, Q)], "gradient", 1e-3)
        env.check(net.theta.grad is None, "the reward network is not trained")
    env.eq(head.seen[0], env.L(st)[0], "first state")
    env.eq(m, mse_, "squared error", 1e-3)
    env.eq(a, acc, "accuracy")
    env.eq(told[0]["mse_loss"], m, "observed error")
    env.eq(told[0]["accuracy"], a, "observed accuracy")


suite.case(bounds="2 states, 2 actions, 1 step", B=2, n=2, steps=1, evaluate=False)(compress_case)
suite.case(bounds="1 state, 2 actions, 2 steps", B=1, n=2, steps=2, evaluate=False)(compress_case)
suite.case(bounds="2 states, 2 actions, 1 step", B=2, n=2, steps=1, evaluate=True)(compress_case)
suite.case(bounds="1 state, 3 actions, 1 step", B=1, n=3, steps=1, evaluate=True)(compress_case)


def s2r_eval_case(env, S, B, n, gamma, training):
    """evaluation reports the trainer's losses, the mean values and the share of states each action is best in; nothing is trained and the mode is restored"""
    net, lg = Seq(env, 1), env.real("lg", B, S, lo=-2, hi=2)
    head = Head(lg)
    tr, opts = s2r_trainer(env, net, n, S, gamma, True, head)
    st, r = env.real("st", S, B, 1, lo=-4, hi=4), env.real("r", S, B, lo=-4, hi=4)
    ac = torch.nn.functional.one_hot(torch.zeros(S, B).long(), n).float()
    lens = [1 + b % S for b in range(B)]
    x = world_batch(st, ac, st, r, torch.ones(S, B), valid_next_seq_len=torch.tensor(lens).reshape(B, 1))
    Q = [best_values(net, s, n, S) for s in env.L(st)[0]]
    for q in Q:
        apart(env, q)
    ev, told = Seq2RewardEvaluator(tr), []
    ev.notify_observers = lambda **kw: told.append(kw)
    net.train(training)
    m, c, qv, dist = ev.evaluate(x)
    env.check(not any(net.modes) and net.training == training and not any(o.grads for o in opts), "evaluated in evaluation mode, which is restored")
    mse_, ce, _ = s2r_spec(env, net, env.L(st), ac.tolist(), env.L(r), lens, gamma, env.L(lg))
    env.eq(m, mse_, "squared error", 1e-3)
    env.close([c], [ce], "cross entropy", 1e-3)
    env.eq(qv, [ssum(q[k] for q in Q) / B for k in range(n)], "mean values", 1e-4)
    env.eq(dist, [ssum(ite(argmax_first(q) == k, 1, 0) for q in Q) / B for k in range(n)], "share of each action", 1e-4)
    for k, v in (("mse_loss", m), ("step_entropy_loss", c), ("q_values", [qv]), ("action_distribution", [dist])):
        env.eq(told[0][k], v, f"observed {k}")


suite.case(bounds="2 steps, 1 example", S=2, B=1, n=2, gamma=0.5, training=True)(s2r_eval_case)
suite.case(bounds="1 step, 2 examples", S=1, B=2, n=2, gamma=0.5, training=False)(s2r_eval_case)


class Script:
    """a trainer whose losses are scripted"""

    def __init__(self, losses):
        self.losses, self.seen, self.modes = losses, [], []
        self.memory_network = types.SimpleNamespace(mdnrnn=nn.Linear(1, 1))
        self.params = MDNRNNTrainerParameters(num_gaussians=1)

    def get_loss(self, batch, state_dim=None):
        self.seen.append((batch, state_dim))
        self.modes.append(self.memory_network.mdnrnn.training)
        k = len(self.seen) - 1
        return {n: self.losses[k, j] for j, n in enumerate(("loss", "gmm", "bce", "mse"))}


def loss_eval_case(env):
    """the losses of a page, evaluated in evaluation mode"""
    L = env.real("L", 1, 4)
    tr = Script(L)
    x = object()
    o = wme.LossEvaluator(tr, 7).evaluate(x)
    env.check(tr.seen == [(x, 7)] and tr.modes == [False] and tr.memory_network.mdnrnn.training, "evaluation mode, then training mode")
    env.eq([o[k] for k in ("loss", "gmm", "bce", "mse")], env.L(L)[0], "losses")


suite.case(bounds="1 page")(loss_eval_case)


def importance_case(env, S, B, discrete, A, starts_a, D, starts_s):
    """a feature's importance is the loss increase when only that feature is replaced: by its mean (by the indicator of median count if it spans several columns),
    or, for discrete actions, every action by that one"""
    na, ns = len(starts_a), len(starts_s)
    L = env.real("L", 1 + na + ns, 4, lo=-4, hi=4)
    tr = Script(L)
    ends_a, ends_s = starts_a[1:] + [A], starts_s[1:] + [D]

    def columns(name, starts, ends):
        cols = []
        for i, (a, b) in enumerate(zip(starts, ends)):
            if b - a > 1:
                k = [(3 * j + i) % (b - a) if j != 1 else 0 for j in range(S * B)]
                cols.append(torch.nn.functional.one_hot(torch.tensor(k), b - a).float())
            else:
                cols.append(env.real(f"{name}{i}", S * B, 1, lo=-4, hi=4))
        return torch.cat(cols, dim=1).reshape(S, B, ends[-1])

    ac = torch.nn.functional.one_hot(torch.arange(S * B) % A, A).float().reshape(S, B, A) if discrete else columns("a", starts_a, ends_a)
    st, nx, r, nt = columns("s", starts_s, ends_s), env.real("nx", S, B, D), env.real("r", S, B), env.mask("nt", S, B)
    x = world_batch(st, ac, nx, r, nt)
    ev = wme.FeatureImportanceEvaluator(tr, discrete, ns, na, starts_a, starts_s)
    before = env.L(ac), env.L(st)
    with env.patch(wme.logger, "info", lambda *a: None):
        imp = ev.evaluate(x)["feature_loss_increase"]
    LL = env.L(L)
    env.eq(list(imp), [LL[k + 1][0] - LL[0][0] for k in range(na + ns)], "importance", 1e-4)
    env.check(tr.modes == [False] * (1 + na + ns) and tr.memory_network.mdnrnn.training and tr.seen[0][0] is x, "evaluation mode, then training mode")
    env.eq(ac, before[0], "the page's actions are untouched")
    env.eq(st, before[1], "the page's states are untouched")

    def replaced(V, a, b):
        rows = [v for step in V for v in step]
        if b - a > 1:
            counts = [sum(x[c] for x in rows) for c in range(a, b)]
            med = sorted(counts)[(len(counts) - 1) // 2]
            new = [0.0] * (b - a)
            new[counts.index(med)] = 1.0
        else:
            new = [ssum(x[a] for x in rows) / len(rows)]
        return [[v[:a] + new + v[b:] for v in step] for step in V]

    for k in range(na + ns):
        y, dim = tr.seen[k + 1]
        env.check(dim == D, "state size")
        if k < na:
            want = [[[1.0 if i == k else 0.0 for i in range(A)]] * B] * S if discrete else replaced(before[0], starts_a[k], ends_a[k])
            env.eq(y.action, want, "actions with one replaced", 1e-4)
            env.check(y.state is x.state, "states as logged")
        else:
            env.eq(y.state.float_features, replaced(before[1], starts_s[k - na], ends_s[k - na]), "states with one feature replaced", 1e-4)
            env.check(y.action is ac, "actions as logged")
        env.check(y.next_state is x.next_state and y.reward is r and y.not_terminal is nt, "outcomes as logged")


suite.case(bounds="2 steps, 2 examples, discrete actions", S=2, B=2, discrete=True, A=2, starts_a=[0, 1], D=2, starts_s=[0, 1])(importance_case)
suite.case(bounds="3 steps, 2 examples, continuous and enumerated features", S=3, B=2, discrete=False, A=3, starts_a=[0, 1], D=4, starts_s=[0, 3])(importance_case)


def sensitivity_case(env, S, B, D, starts, perm):
    """a state feature's sensitivity is the mean absolute change of its predicted mean when actions are exchanged between examples"""
    a, b = env.real("mu", S, B, 1, D, lo=-4, hi=4), env.real("mv", S, B, 1, D, lo=-4, hi=4)
    tr = Script(torch.zeros(1, 4))
    seen = []

    class Net:
        mdnrnn = tr.memory_network.mdnrnn

        def __call__(self, state, action):
            seen.append((state, action.float_features, self.mdnrnn.training))
            return types.SimpleNamespace(mus=(a, b)[len(seen) - 1])

    tr.memory_network = Net()
    st, ac = env.real("st", S, B, D), env.real("ac", S, B, 1)
    x = world_batch(st, ac, st, torch.zeros(S, B), torch.ones(S, B))
    with env.patch(wme.logger, "info", lambda *a: None), env.patch(torch, "randperm", lambda n: torch.tensor(perm)):
        o = wme.FeatureSensitivityEvaluator(tr, len(starts), starts).evaluate(x)["feature_sensitivity"]
    env.check(len(seen) == 2 and not seen[0][2] and not seen[1][2] and Net.mdnrnn.training and seen[0][0] is x.state and seen[1][0] is x.state, "two predictions from the logged states")
    env.eq(seen[0][1], env.L(ac), "logged actions")
    env.eq(seen[1][1], [[step[p] for p in perm] for step in env.L(ac)], "exchanged actions")
    ends = starts[1:] + [D]
    P, Q = env.L(a), env.L(b)
    env.eq(list(o), [ssum(sabs(Q[s][i][0][d] - P[s][i][0][d]) for s in range(S) for i in range(B) for d in range(u, v)) / (S * B) for u, v in zip(starts, ends)], "sensitivity", 1e-4)


suite.case(bounds="2 steps, 3 examples, features of 1 and 2 columns", S=2, B=3, D=3, starts=[0, 1], perm=[2, 0, 1])(sensitivity_case)
