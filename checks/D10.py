"""SlateQ: decomposed slate values, selection-weighted next value, observed positions only."""
from reagent.optimizer import Optimizer__Union
from reagent.parameters import RLParameters
from reagent.training.slate_q_trainer import SlateQTrainer
from checks.common import *

suite = Suite("D10", ["choice scores of the next candidates lie in [-4, 4]", "every selected candidate is present"])


class ItemQ(torch.nn.Module):
    """an arbitrary item-wise value of (state, document)"""

    def __init__(self, env, name):
        super().__init__()
        self.net = env.net(name, 1)
        self.theta = self.net.theta

    def forward(self, state, doc):
        return self.net(state.float_features, doc.float_features)


def slateq_case(env, B, C, K, single, gamma=0.5, alias=False):
    s, ns = env.real("s", B, 1), env.real("ns", B, 1)
    docs, ndocs = env.real("doc", B, C, 1), env.real("ndoc", B, C, 1)
    val = env.real("val", B, C, lo=-4, hi=4)
    act, nact = env.ints("act", B, K, lo=0, hi=C - 1), env.ints("nact", B, K, lo=-1, hi=C - 1)
    r, nt = env.real("r", B, K), env.mask("nt", B, 1)
    rm = env.bools("rm", B, K)
    A, NA, R, NT, RM, DOC, NDOC, VAL = (env.L(x) for x in (act, nact, r, nt, rm, docs, ndocs, val))
    for i in range(B):        # a slate after a terminal state is meaningless (-1); otherwise it indexes the candidates
        for j in range(K):
            env.assume(sor(NT[i][0] == 0, NA[i][j] >= 0))
    env.assume(sor(*[x for row in RM for x in row]))
    ones = torch.ones(B, C, dtype=torch.bool)
    b = rlt.SlateQInput(state=rlt.FeatureData(float_features=s, candidate_docs=rlt.DocList(docs, ones, torch.ones(B, C))),
                        next_state=rlt.FeatureData(float_features=ns, candidate_docs=rlt.DocList(ndocs, ones, val)),
                        reward=r, time_diff=torch.ones(B, 1), step=None, not_terminal=nt, action=act, next_action=nact, reward_mask=rm,
                        extras=rlt.ExtraData())
    q, qt = ItemQ(env, "q"), ItemQ(env, "qt")
    tr = prepare(SlateQTrainer(q, qt, rl=RLParameters(gamma=gamma, maxq_learning=False), optimizer=Optimizer__Union.default(), single_selection=single))
    steps = drive(tr, b)
    env.check(len(steps) == 2, "value loss, target update")
    one = lambda n, x, d: wrap(env.net_eval(n, [unwrap(x), unwrap(d)] if env.sym else [x, d], 1)[0])
    loss, n, grad = 0, 0, 0
    for i in range(B):
        qs = [pick_at([one("qt", env.L(ns)[i][0], NDOC[i][c][0]) for c in range(C)], NA[i][j]) for j in range(K)]
        vs = [pick_at(VAL[i], NA[i][j]) for j in range(K)]
        if single:
            w = [sexp(v) for v in vs]
            nxt = ssum(x * v for x, v in zip(qs, w)) / ssum(w)
        else:
            nxt = ssum(x * v for x, v in zip(qs, vs)) / K
        for j in range(K):
            y = R[i][j] + ite(NT[i][0] == 1, gamma * nxt, 0)
            p = pick_at([one("q", env.L(s)[i][0], DOC[i][c][0]) for c in range(C)], A[i][j])
            on = ite(RM[i][j], 1, 0) if single else 1
            loss, n, grad = loss + on * (p - y) * (p - y), n + on, grad + on * 2 * (p - y)
    env.eq(steps[0].loss, loss / n, "slate value loss")
    env.eq(steps[0].grad(q), [grad / n], "gradient at the item value")


suite.case(bounds="1 transition, 3 candidates, slates of 2, one selection", B=1, C=3, K=2, single=True)(slateq_case)
suite.case(bounds="1 transition, 3 candidates, slates of 2, several selections", B=1, C=3, K=2, single=False)(slateq_case)
suite.case(bounds="2 transitions, 2 candidates, slates of 2", B=2, C=2, K=2, single=False)(slateq_case)
suite.case(bounds="2 transitions, 2 candidates, slates of 1", B=2, C=2, K=1, single=True)(slateq_case)
suite.case(tier="thorough", bounds="2 transitions, 3 candidates, slates of 2", B=2, C=3, K=2, single=True)(slateq_case)


@suite.case(bounds="default parameters")
def defaults_case(env):
    """a trainer built with its defaults trains"""
    tr = SlateQTrainer(ItemQ(env, "q"), ItemQ(env, "qt"))
    env.eq(tr.gamma, RLParameters().gamma, "default discount")
    env.check(tr.single_selection is True, "default selection")
    env.check(len(tr.configure_optimizers()) == 2, "default optimizers")
