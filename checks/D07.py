"""Soft actor-critic: critic targets, actor objective, temperature, value network."""
import math
from reagent.optimizer import Optimizer__Union
from reagent.parameters import RLParameters
from reagent.training.sac_trainer import CRRWeightFn, SACTrainer
from checks.common import *

suite = Suite("D07", ["network outputs lie in [-50, 50] (the log-probability clamp at 20 is inside that range)",
                      "the actor's gradient flows only through its action and its log-probability"])


class Actor(torch.nn.Module):
    def __init__(self, env):
        super().__init__()
        self.act = env.net("actor.action", 1, bound=(-50, 50))
        self.lp = env.net("actor.log_prob", 1, bound=(-50, 50))
        self.lpa = env.net("actor.log_prob_of", 1, bound=(-50, 50))

    def forward(self, state):
        return rlt.ActorOutput(action=self.act(state), log_prob=self.lp(state), squashed_mean=self.act(state))

    def get_log_prob(self, state, action):
        return self.lpa(state, action)


def sac_case(env, B, q2=True, value=False, alpha=False, crr=None, backprop=True, prior=True, gamma=0.5, temp=0.25, kld=None):
    s, ns, a = env.real("s", B, 1), env.real("ns", B, 1), env.real("a", B, 1)
    r, nt = env.real("r", B, 1), env.mask("nt", B, 1)
    b = rlt.PolicyNetworkInput(state=feat(s), next_state=feat(ns), action=feat(a), next_action=feat(torch.zeros(B, 1)), reward=r,
                               time_diff=torch.ones(B, 1), step=None, not_terminal=nt, extras=rlt.ExtraData())
    net = lambda n, **kw: env.net(n, 1, bound=(-50, 50), **kw)
    q1, q2n = net("q1", grad_inputs=True), net("q2", grad_inputs=True) if q2 else None
    v = net("v") if value else None
    actor = Actor(env)
    emb = dict(action_embedding_kld_weight=0.5, action_embedding_mean=[0.25], action_embedding_variance=[2.0], apply_kld_on_mean=kld == "mean") if kld else {}
    tr = prepare(SACTrainer(actor, q1, q2n, v, rl=RLParameters(gamma=gamma), entropy_temperature=temp,
                            alpha_optimizer=Optimizer__Union.default() if alpha else None, target_entropy=-1.0,
                            logged_action_uniform_prior=prior, crr_config=crr, backprop_through_log_prob=backprop, **emb))
    if kld:        # the batch variance of the actions enters through its logarithm
        x = env.L(actor.act(feat(s)))
        env.assume(x[0][0] > x[1][0])
    steps = drive(tr, b)
    env.check(len(steps) == 1 + q2 + 1 + alpha + value + 1, "number of losses")
    col = lambda t: [x[0] for x in env.L(t)]
    Q = lambda n, x, y: col(n(feat(x), feat(y)))
    R, NT = col(r), col(nt)
    nact = actor.act(feat(ns)).detach()
    act = actor.act(feat(s)).detach()
    lp = col(actor.lp(feat(s)))
    if value:
        nv = col(v.copies[0](ns))
    else:
        nv = Q(q1.copies[0], ns, nact)
        if q2:
            nv = [smin(x, y) for x, y in zip(nv, Q(q2n.copies[0], ns, nact))]
        nv = [x - temp * clamp(l, -20, 20) for x, l in zip(nv, col(actor.lpa(feat(ns), feat(nact))))]
    y = [R[i] + ite(NT[i] == 1, gamma * nv[i], 0) if gamma else R[i] for i in range(B)]
    k = 0
    for n in [q1] + [q2n] * q2:
        p = list(zip(Q(n, s, a), y))
        env.eq(steps[k].loss, mse(p), f"critic loss {n.name_}")
        env.eq(steps[k].grad(n), [ssum(2 * (u - w) for u, w in p) / B], f"critic gradient {n.name_}")
        k += 1
    m = Q(q1, s, act)
    m2 = Q(q2n, s, act) if q2 else m
    qmin = [smin(x, z) for x, z in zip(m, m2)]
    vals = col(v(s)) if value else None
    if crr:
        adv = [x - z for x, z in zip(qmin, vals)]
        if crr.indicator_fn_threshold:
            w = [ite(x >= crr.indicator_fn_threshold, 1, 0) for x in adv]
        else:
            w = [sexp(x / crr.exponent_beta) for x in adv]
            if crr.exponent_clamp:
                w = [smin(x, crr.exponent_clamp) for x in w]
        obj = ssum(-l * x for l, x in zip(lp, w)) / B
    else:
        obj = ssum(temp * l - x for l, x in zip(lp, qmin)) / B
        w = None
    if kld:
        acts = col(act)
        mean = ssum(acts) / B
        var = ssum((x - mean) * (x - mean) for x in acts) / (B - 1)
        obj = obj + 0.5 * 0.5 * ((var + (mean - 0.25) * (mean - 0.25)) / 2.0 - 1 + slog(2.0) - slog(var))
        env.eq(steps[k].loss, obj, "actor objective with the divergence term")
    else:
        env.eq(steps[k].loss, obj, "actor objective")
        env.eq(steps[k].grad(actor.lp), [(-ssum(w) / B if crr else temp) if backprop else 0] if backprop else [0], "gradient through the log-probability") if backprop else \
            env.check(steps[k].grad(actor.lp) is None, "log-probability is detached")
        if not crr:
            # d q / d action of the critic that attains the minimum
            args = torch.cat([s, act], dim=1)
            D = {n.name_: [env.net_eval(f"{n.name_}.d1", row, 1)[0] for row in env.rows(args)] for n in [q1] + [q2n] * q2}
            g = 0
            tie = False
            for i in range(B):
                d1 = wrap(D["q1"][i])
                d2 = wrap(D["q2"][i]) if q2 else d1
                g = g - ite(m[i] < m2[i], d1, ite(m[i] == m2[i], (d1 + d2) / 2, d2)) / B
            env.eq(steps[k].grad(actor.act), [g], "gradient through the action")
    k += 1
    if alpha:
        la = math.log(temp)
        env.eq(steps[k].loss, -ssum(la * (l - 1.0) for l in lp) / B, "temperature loss", tol=1e-4)
        env.eq(steps[k].grad(tr.log_alpha), [-ssum(l - 1.0 for l in lp) / B], "temperature gradient")
        k += 1
    if value:
        tv = [x if prior else x - temp * clamp(l, -20, 20) for x, l in zip(qmin, lp)]
        p = list(zip(vals, tv))
        env.eq(steps[k].loss, mse(p), "value loss")
        env.eq(steps[k].grad(v), [ssum(2 * (x - z) for x, z in p) / B], "value gradient")


for kw in [dict(), dict(q2=False), dict(backprop=False), dict(gamma=0.0), dict(value=True), dict(value=True, prior=False), dict(value=True, q2=False)]:
    suite.case(bounds="2 transitions, 1-dimensional action", B=2, **kw)(sac_case)
suite.case(bounds="2 transitions, temperature learned", B=2, alpha=True, temp=1.0)(sac_case)
suite.case(bounds="2 transitions", B=2, value=True, crr=CRRWeightFn(indicator_fn_threshold=0.5))(sac_case)
suite.case(bounds="2 transitions", B=2, value=True, crr=CRRWeightFn(exponent_beta=2.0, exponent_clamp=8.0))(sac_case)
suite.case(bounds="1 transition", B=1, value=True, crr=CRRWeightFn(exponent_beta=2.0))(sac_case)
suite.case(bounds="2 transitions, divergence to the action embedding", B=2, kld="action")(sac_case)
suite.case(bounds="2 transitions, divergence to the action embedding", B=2, kld="mean")(sac_case)
