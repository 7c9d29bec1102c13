"""Discrete critic-regularised regression: twin expected-value critics, advantage-weighted actor, delayed updates."""
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from checks.common import *
from checks.D02 import softmax_spec

suite = Suite("D09", ["network outputs lie in [-8, 8]"])


class Actor(torch.nn.Module):
    def __init__(self, env, A, name="actor"):
        super().__init__()
        self.env, self.A, self.net, self.copies = env, A, env.net(name, A, bound=(-8, 8)), []

    def __deepcopy__(self, memo):
        self.copies.append(Actor(self.env, self.A, f"actor~{len(self.copies)}"))
        return self.copies[-1]

    def forward(self, state):
        return rlt.ActorOutput(action=self.net(state))


def softmax(row):
    return softmax_spec(row, [1] * len(row), 1.0)


def crr_case(env, B, A, q2=True, target_actor=False, boost=False, delay=1, idx=0, cpe=False, gamma=0.5):
    s, ns = env.real("s", B, 1), env.real("ns", B, 1)
    a, ai = one_hot(env, "a", B, A)
    r, nt = env.real("r", B, 1), env.mask("nt", B, 1)
    b = rlt.DiscreteDqnInput(state=feat(s), next_state=feat(ns), reward=r, time_diff=torch.ones(B, 1), step=None, not_terminal=nt, action=a,
                             next_action=torch.zeros(B, A), possible_actions_mask=torch.ones(B, A), possible_next_actions_mask=torch.ones(B, A), extras=rlt.ExtraData())
    net = lambda n: env.net(n, A, bound=(-8, 8))
    q1, q2n, actor = net("q1"), net("q2") if q2 else None, Actor(env, A)
    rn, qc, qct = (net("rn"), net("qc"), net("qct")) if cpe else (None, None, None)
    tr = prepare(DiscreteCRRTrainer(actor, q1, rn, q2n, qc, qct, actions=[str(i) for i in range(A)], use_target_actor=target_actor, delayed_policy_update=delay,
                                    rl=RLParameters(gamma=gamma, reward_boost={"1": -0.5} if boost else None, temperature=1.0), evaluation=EvaluationParameters(calc_cpe_in_training=cpe)))
    steps = drive(tr, b, idx)
    env.check(len(steps) == 1 + q2 + 1 + 2 * cpe + 1, "number of losses")
    S, N = b.state, b.next_state
    pi = [softmax(row) for row in env.L((actor.copies[0] if target_actor else actor).net(N))]
    R, NT = env.L(r), env.L(nt)
    dot = lambda u, v: ssum(x * y for x, y in zip(u, v))
    T1 = env.L(q1.copies[0](N))
    T2 = env.L(q2n.copies[0](N)) if q2 else T1
    y, NV = [], []
    for i in range(B):
        v = smin(dot(T1[i], pi[i]), dot(T2[i], pi[i])) if q2 else dot(T1[i], pi[i])
        rew = R[i][0] + (ite(ai[i] == 1, -0.5, 0) if boost else 0)
        y.append(rew + ite(NT[i][0] == 1, gamma * v, 0))
    k = 0
    for n in [q1] + [q2n] * q2:
        Q = env.L(n(S))
        p = [(pick_at(Q[i], ai[i]), y[i]) for i in range(B)]
        env.eq(steps[k].loss, mse(p), f"critic loss {n.name_}")
        env.eq(steps[k].grad(n), [ssum(ite(ai[i] == j, 2 * (p[i][0] - p[i][1]), 0) for i in range(B)) / B for j in range(A)], f"critic gradient {n.name_}")
        k += 1
    if idx % delay == 0:
        P = [softmax(row) for row in env.L(actor.net(S))]
        Q = env.L(q1(S))
        loss, grad = 0, [0] * A
        for i in range(B):
            adv = pick_at(Q[i], ai[i]) - dot(Q[i], P[i])
            w = smin(sexp(adv), 20.0)
            loss = loss - w * slog(pick_at(P[i], ai[i])) / B
            for j in range(A):
                grad[j] = grad[j] - w * (ite(ai[i] == j, 1, 0) - P[i][j]) / B
        env.eq(steps[k].loss, loss, "actor loss")
        if B == 1:
            env.eq(steps[k].grad(actor.net), grad, "actor gradient")
    else:
        env.check(steps[k].loss is None, "the actor rests between delayed updates")
    k += 1
    if cpe:
        RN = env.L(rn(S))
        p = [(pick_at(RN[i], ai[i]), R[i][0]) for i in range(B)]
        st = [x for x in steps if id(rn.theta) in owners(x.opt)][0]
        env.check(st.loss is not None, "the reward head is trained on every batch")
        env.eq(st.loss, mse(p), "reward-head loss")
        env.eq(st.grad(rn), [ssum(ite(ai[i] == j, 2 * (p[i][0] - p[i][1]), 0) for i in range(B)) / B for j in range(A)], "reward-head gradient")
        st = [x for x in steps if id(qc.theta) in owners(x.opt) and x.grads][0]
        env.check(st.loss is not None, "the metric-value head is trained on every batch")
    env.check((steps[-1].loss is None) == (idx % delay != 0), "targets follow exactly when the actor is updated")


for kw in [dict(q2=False), dict(q2=False, target_actor=True), dict(q2=False, boost=True)]:
    suite.case(bounds="2 transitions, 2 actions", B=2, A=2, **kw)(crr_case)
suite.case(bounds="1 transition, 2 actions", B=1, A=2)(crr_case)
suite.case(tier="thorough", bounds="1 transition, 3 actions", B=1, A=3, q2=False)(crr_case)
for idx in (1, 2, 3):
    suite.case(bounds="1 transition, 2 actions, delay 2", B=1, A=2, delay=2, idx=idx)(crr_case)
suite.case(bounds="1 transition, 2 actions, evaluation heads", B=1, A=2, q2=False, cpe=True)(crr_case)
suite.case(bounds="1 transition, 2 actions, evaluation heads, delay 2", B=1, A=2, q2=False, cpe=True, delay=2, idx=1)(crr_case)
