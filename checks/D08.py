"""TD3: smoothed twin-critic target, critic losses, delayed actor and target updates."""
from reagent.parameters import RLParameters
from reagent.training.td3_trainer import TD3Trainer
from checks.common import *

suite = Suite("D08", ["network outputs are real valued; target-policy noise is an arbitrary real"])


class Actor(torch.nn.Module):
    def __init__(self, env, name="actor"):
        super().__init__()
        self.env, self.act, self.copies = env, env.net(name, 1, bound=(-1, 1)), []

    def __deepcopy__(self, memo):
        self.copies.append(Actor(self.env, f"actor~{len(self.copies)}"))
        return self.copies[-1]

    def forward(self, state):
        return rlt.ActorOutput(action=self.act(state))


def td3_case(env, B, q2=True, gamma=0.5, var=0.25, clip=0.5, delay=1, idx=0, deep=False):
    s, ns, a = env.real("s", B, 1), env.real("ns", B, 1), env.real("a", B, 1)
    r, nt = env.real("r", B, 1), env.mask("nt", B, 1)
    b = rlt.PolicyNetworkInput(state=feat(s), next_state=feat(ns), action=feat(a), next_action=feat(torch.zeros(B, 1)), reward=r,
                               time_diff=torch.ones(B, 1), step=None, not_terminal=nt, extras=rlt.ExtraData())
    q1, q2n = env.net("q1", 1, grad_inputs=True), env.net("q2", 1, grad_inputs=True) if q2 else None
    actor = Actor(env)
    tr = prepare(TD3Trainer(actor, q1, q2n, rl=RLParameters(gamma=gamma), noise_variance=var, noise_clip=clip, delayed_policy_update=delay))
    steps = drive(tr, b, idx)
    env.check(len(steps) == 1 + q2 + 2, "number of losses")
    col = lambda t: [x[0] for x in env.L(t)]
    Q = lambda n, x, y: col(n(feat(x), feat(y)))
    noise = env.draws("normal")
    env.check(len(noise) == 1, "one noise draw per batch")
    at = col(actor.copies[0].act(feat(ns)))
    na = [clamp(x + clamp(z[0] * var, -clip, clip), -1, 1) for x, z in zip(at, noise[0])]
    nat = env.mk([[unwrap(x) if env.sym else x] for x in na])
    nv = Q(q1.copies[0], ns, nat)
    if q2:
        nv = [smin(x, y) for x, y in zip(nv, Q(q2n.copies[0], ns, nat))]
    R, NT = col(r), col(nt)
    y = [R[i] + ite(NT[i] == 1, gamma * nv[i], 0) for i in range(B)]
    k = 0
    for n in [q1] + [q2n] * q2:
        p = list(zip(Q(n, s, a), y))
        env.eq(steps[k].loss, mse(p), f"critic loss {n.name_}")
        env.eq(steps[k].grad(n), [ssum(2 * (u - w) for u, w in p) / B], f"critic gradient {n.name_}")
        k += 1
    if idx % delay == 0:
        act = actor.act(feat(s)).detach()
        env.eq(steps[k].loss, -ssum(Q(q1, s, act)) / B, "actor objective")
        d = [wrap(env.net_eval("q1.d1", row, 1)[0]) for row in env.rows(torch.cat([s, act], dim=1))]
        env.eq(steps[k].grad(actor.act), [-ssum(d) / B], "gradient through the action")
        env.check(steps[k + 1].loss is not None, "targets follow in the same step")
    else:
        env.check(steps[k].loss is None and steps[k + 1].loss is None, "actor and targets rest between delayed updates")


for kw in [dict(), dict(q2=False), dict(clip=2.0, var=1.0)]:
    suite.case(bounds="2 transitions, 1-dimensional action", B=2, **kw)(td3_case)
for idx in (1, 2, 3, 4):
    suite.case(bounds="1 transition, delay 2 or 3", B=1, delay=2, idx=idx)(td3_case)
    suite.case(bounds="1 transition, delay 2 or 3", B=1, delay=3, idx=idx)(td3_case)
