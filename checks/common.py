"""Shared builders for the harnesses (inputs only; no oracle lives here)."""
import reagent.types as rlt
import torch
from symex.scal import *  # noqa
from symex.harness import Suite  # noqa


def feat(t):
    return rlt.FeatureData(float_features=t)


def one_hot(env, name, n, k):
    """n one-hot rows of width k; returns (tensor, rows as lists)"""
    idx = env.ints(name, n, lo=0, hi=k - 1)
    return torch.nn.functional.one_hot(idx, k).float(), env.L(idx)


def pick_at(xs, i):
    """xs[i] for a possibly symbolic index"""
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = ite(i == j, xs[j], r)
    return r


def masked_max(vals, mask):
    """max over mask==1, and the set of indices attaining it; needs at least one allowed entry"""
    best, seen = 0, False
    for v, m in zip(vals, mask):
        m = sor(m == 1) if not isinstance(m, bool) else m
        best = ite(m, ite(seen, smax(best, v), v), best)
        seen = sor(seen, m)
    return best


def argmax_first(vals, mask=None):
    """index of the first largest allowed entry"""
    bi, bv, seen = 0, 0, False
    for j, v in enumerate(vals):
        m = True if mask is None else (mask[j] == 1)
        better = sand(m, sor(snot(seen), v > bv))
        bi = ite(better, j, bi)
        bv = ite(better, v, bv)
        seen = sor(seen, m)
    return bi


class Reporter:
    def __init__(self):
        self.logged = {}

    def log(self, **kw):
        self.logged.update(kw)

    def __getattr__(self, n):
        return lambda *a, **k: None


def mse(pairs):
    return ssum((a - b) * (a - b) for a, b in pairs) / len(pairs)


def huber(pairs):
    r = 0
    for a, b in pairs:
        d = abs(a - b)
        r = r + ite(d < 1, d * d / 2, d - 0.5)
    return r / len(pairs)


class Step:
    """one position of the training protocol: the loss handed to optimizer k and what it trains"""

    def __init__(self, loss, grads, opt):
        self.loss, self.grads, self.opt = loss, grads, opt

    def grad(self, net):
        return self.grads.get(id(net.theta if hasattr(net, "theta") else net))


def prepare(tr, reporter=None):
    import types as _t
    tr.trainer = _t.SimpleNamespace(log_every_n_steps=1, current_epoch=0)
    tr.log = lambda *a, **k: None
    tr.set_reporter(reporter or Reporter())
    return tr


def drive(tr, batch, batch_idx=0):
    """Run one batch the way Lightning runs it: for optimizer k only its own parameters are trainable while
    training_step(batch, batch_idx, k) builds the loss and the loss is differentiated."""
    from reagent.optimizer.soft_update import SoftUpdate
    opts = tr.configure_optimizers()
    params = {id(p): p for o in opts for g in o.param_groups for p in g["params"]}
    flags = {k: p.requires_grad for k, p in params.items()}
    out = []
    for k, o in enumerate(opts):
        own = {id(p) for g in o.param_groups for p in g["params"]}
        for i, p in params.items():
            p.requires_grad_(i in own and flags[i])
            p.grad = None
        loss = tr.training_step(batch, batch_idx, k)
        grads = {}
        if loss is not None and not isinstance(o, SoftUpdate):
            loss.backward()
            grads = {i: params[i].grad for i in own}
        out.append(Step(loss, grads, o))
    for i, p in params.items():
        p.requires_grad_(flags[i])
        p.grad = None
    return out


def owners(opt):
    return {id(p) for g in opt.param_groups for p in g["params"]}
