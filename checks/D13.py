"""Continuous policies: squashed Gaussian, deterministic with exploration noise, Dirichlet; actions and their log-densities."""
import math
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.samplers.continuous_sampler import GaussianSampler
from reagent.gym.policies.scorers.continuous_scorer import sac_scorer
from reagent.gym.types import GaussianSamplerScore
from reagent.models.actor import DirichletFullyConnectedActor, FullyConnectedActor, GaussianFullyConnectedActor
from checks.common import *

suite = Suite("D13", ["log-densities are decided for means and log scales in [-3, 3] and pre-squash samples in [-2, 2]; actions for all"])
EPS = 1e-6
C = math.log(math.sqrt(2 * math.pi))


def body(env, name, row, n, lo, hi):
    return [wrap(x) for x in env.net_eval(name, [unwrap(x) if env.sym else x for x in row], n, lo, hi)]


def gaussian(env, D, norm=False, W=30):
    a = GaussianFullyConnectedActor(state_dim=2, action_dim=D, sizes=[2], activations=["relu"], use_l2_normalization=norm)
    a.fc = env.net("fc", 2 * D, bound=(-W, W))
    return a


def head(env, S, D, W=30):
    x = body(env, "fc", S, 2 * D, -W, W)
    return x[:D], [clamp(v, -20, 2) for v in x[D:]]


def density(act, loc, ls):
    """log-density of a tanh-squashed normal at act"""
    out = 0
    for a, m, l in zip(act, loc, ls):
        raw = satanh(a)
        z = (raw - m) / sexp(l)
        out = out - z * z / 2 - l - C - slog(1 - a * a + EPS)
    return out


def satanh(x):
    from symex import elem as E
    return math.atanh(x) if isinstance(x, (int, float)) else wrap(E.unary("ATANH", unwrap(x)))


def gauss_case(env, B, D, norm=False, W=30):
    s, act = env.real("s", B, 2), env.real("a", B, D, lo=-0.9375, hi=0.9375)
    S0, A0 = env.L(s), env.L(act)
    actor = gaussian(env, D, norm, W)
    out = actor(feat(s))
    eps = env.draws("normal")[-1]
    got, mean = env.L(out.action), env.L(out.squashed_mean)
    env.shape(out.log_prob, (B, 1), "log-density")
    lp = env.L(actor.get_log_prob(feat(s), act))
    for b in range(B):
        loc, ls = head(env, S0[b], D, W)
        sq = lambda raw: [clamp(stanh(x), -1 + EPS, 1 - EPS) for x in raw]
        want = sq([m + e * sexp(l) for m, e, l in zip(loc, eps[b], ls)])
        wmean = sq(loc)
        if norm:
            for w in (want, wmean):
                n = ssqrt(ssum(x * x for x in w))
                w[:] = [x / n for x in w]
        env.eq(got[b], want, "squashed sample")
        env.eq(mean[b], wmean, "squashed mean")
        if W > 3:
            continue
        for m, e, l in zip(loc, eps[b], ls):
            env.assume(sabs(m + e * sexp(l)) <= 2)
        env.eq(env.L(out.log_prob)[b][0], density(got[b], loc, ls), "log-density of the sample")
        env.eq(lp[b][0], density(A0[b], loc, ls), "log-density of a given action")


for W in (30, 3):
    suite.case(bounds="1 state of 2 features, 2 dimensions", B=1, D=2, W=W)(gauss_case)
    suite.case(bounds="2 states of 2 features, 1 dimension", B=2, D=1, W=W)(gauss_case)


def l2_case(env, D):
    s = env.real("s", 1, 2)
    actor = gaussian(env, D, True)
    raw = env.real("raw", 1, D)
    env.assume(sor(*[x != 0 for x in env.L(raw)[0]]))
    got = env.L(actor._squash_raw_action(raw))[0]
    sq = [clamp(stanh(x), -1 + EPS, 1 - EPS) for x in env.L(raw)[0]]
    n = ssqrt(ssum(x * x for x in sq))
    for g, x in zip(got, sq):
        env.eq(g * n, x, "direction is kept, length is one")


suite.case(bounds="2 dimensions", D=2)(l2_case)


def sampler_case(env, B, D, W=30):
    """the stand-alone sampler agrees with the actor it serves"""
    s, act = env.real("s", B, 2), env.real("a", B, D, lo=-0.9375, hi=0.9375)
    S0, A0 = env.L(s), env.L(act)
    actor = gaussian(env, D, W=W)
    scores = sac_scorer(actor)(feat(s))
    sampler = GaussianSampler(actor)
    out = sampler.sample_action(scores)
    eps = env.draws("normal")[-1]
    lp = sampler.log_prob(scores, act)
    got = env.L(out.action)
    for b in range(B):
        loc, ls = head(env, S0[b], D, W)
        env.eq(scores.loc[b], loc, "mean")
        env.eq(scores.scale_log[b], ls, "log scale, clamped")
        want = [stanh(m + e * sexp(l)) for m, e, l in zip(loc, eps[b], ls)]
        env.eq(got[b], want, "squashed sample")
        if W > 3:
            continue
        for m, e, l in zip(loc, eps[b], ls):
            env.assume(sabs(m + e * sexp(l)) <= 2)
        ideal = -ssum(e * e / 2 + l + C + slog(1 - a * a + EPS) for e, l, a in zip(eps[b], ls, want))
        env.eq(env.L(out.log_prob)[b], ideal, "log-density of the sample")
        env.eq(env.L(lp)[b], density(A0[b], loc, ls), "log-density of a given action")
    env.check(actor.training, "the actor is back in training mode")


for W in (30, 3):
    suite.case(bounds="1 state, 2 dimensions", B=1, D=2, W=W)(sampler_case)
    suite.case(bounds="2 states, 1 dimension", B=2, D=1, W=W)(sampler_case)


def det_case(env, B, D, var):
    s = env.real("s", B, 2)
    S0 = env.L(s)
    actor = FullyConnectedActor(state_dim=2, action_dim=D, sizes=[2], activations=["relu"], exploration_variance=var)
    actor.fc = env.net("fc", D, bound=(-1, 1))
    out = actor(feat(s))
    env.shape(out.log_prob, (B, 1), "log-density")
    got, lp = env.L(out.action), env.L(out.log_prob)
    from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE as R
    for b in range(B):
        base = body(env, "fc", S0[b], D, -1, 1)
        if var is None:
            env.eq(got[b], base, "action")
            env.eq(lp[b][0], 0, "certain")
            continue
        e = env.draws("normal")[-1][b]
        for g, m, x in zip(got[b], base, e):
            env.eq(g, clamp(m + var * x, R[0], R[1]), "action plus exploration noise, kept in range")
        env.close([lp[b][0]], [-ssum(x * x / 2 + math.log(var) + C for x in e)], "log-density of the noise", 1e-5 * D)
    env.check(-1 <= R[0] < R[1] <= 1, "training action range lies inside the squashed range")


suite.case(bounds="2 states, 2 dimensions, no exploration", B=2, D=2, var=None)(det_case)
suite.case(bounds="2 states, 2 dimensions, noise 1/4", B=2, D=2, var=0.25)(det_case)


def dirichlet_case(env, B, D, train):
    s = env.real("s", B, 2)
    S0 = env.L(s)
    actor = DirichletFullyConnectedActor(2, D, [2], ["relu"])
    actor.fc = env.net("fc", D, bound=(-3, 3))
    actor.train(train)
    out = actor(feat(s)) if not train else None
    conc = [[sexp(x) + EPS for x in body(env, "fc", S0[b], D, -3, 3)] for b in range(B)]
    if not train:
        env.eq(out.action, env.draws("dirichlet")[-1], "drawn simplex point")
        env.eq(env.params("dirichlet")[-1], conc, "concentration")
        for row in env.L(out.action):
            env.eq(ssum(row), 1, "action sums to one")
        return
    act = env.real("a", B, D, lo=0.0625, hi=1)
    for row in env.L(act):
        env.assume(ssum(row) == 1)
    lp = env.L(actor.get_log_prob(feat(s), act))
    import reagent.models.actor as m
    want = m.Dirichlet
    for b in range(B):
        a = env.L(act)[b]
        env.eq(lp[b][0], slg(ssum(conc[b])) - ssum(slg(c) for c in conc[b]) + ssum((c - 1) * slog(x) for c, x in zip(conc[b], a)), "Dirichlet log-density")


def slg(x):
    from symex import elem as E
    return math.lgamma(x) if isinstance(x, (int, float)) else wrap(E.unary("LGAMMA", unwrap(x)))


suite.case(bounds="2 states, 2 dimensions, serving", B=2, D=2, train=False)(dirichlet_case)
suite.case(bounds="1 state, 2 dimensions, log-density", B=1, D=2, train=True)(dirichlet_case)
