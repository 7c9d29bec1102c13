"""Circular replay buffer: which transitions may be sampled after any history, and what a sample contains."""
import numpy as np
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from checks.common import *
from checks.replay import symbolic_storage

suite = Suite("D17", ["one-dimensional observations; discount 1/2", "contents of a state after a terminal step are unspecified"])


class Model:
    """the stream as the documentation describes it: stack - 1 blank entries open every episode, the oldest entries are overwritten"""

    def __init__(self, cap, stack, n):
        self.cap, self.stack, self.n = cap, stack, n
        self.stream = []            # None for a blank entry, else dict
        self.episode = 0

    def add(self, tr):
        if not self.stream or self.stream[-1]["term"]:
            self.episode += 1
            self.stream += [dict(blank=True, term=False, ep=self.episode)] * (self.stack - 1)
        self.stream.append(dict(tr, blank=False, ep=self.episode))

    def window(self, p):
        """transitions p, p+1, ... up to the first terminal or n of them; None while the outcome is unknown"""
        out = []
        for j in range(p, p + self.n):
            if j >= len(self.stream):
                return None
            out.append(self.stream[j])
            if self.stream[j]["term"]:
                return out
        return out if p + self.n < len(self.stream) else None

    def valid(self):
        N = len(self.stream)
        return [p for p in range(N) if not self.stream[p]["blank"] and p - (self.stack - 1) >= N - self.cap and self.window(p) is not None]

    def stacked(self, p, key):
        return [0 if self.stream[q]["blank"] else self.stream[q][key] for q in range(p - self.stack + 1, p + 1)]


def same(env, got, want, label):
    env.eq(got, want, label)


def history_case(env, cap, stack, n, adds, timeline=False, everything=False, extra=False, terms=None):
    m = Model(cap, stack, n)
    with symbolic_storage(env):
        buf = ReplayBuffer(stack_size=stack, replay_capacity=cap, batch_size=1, update_horizon=n, gamma=0.5,
                           return_as_timeline_format=timeline, return_everything_as_stack=everything)
        for k in range(adds):
            tr = dict(obs=env.num(f"o{k}", -8, 8), act=k + 1, rew=env.num(f"r{k}", -8, 8),
                      term=bool(env.flag(f"t{k}")) if terms is None else terms[k], ext=env.num(f"e{k}", -8, 8) if extra else 0)
            # the first transition fixes the types of the storage, so it is concrete
            if k == 0:
                tr["obs"], tr["rew"], tr["ext"] = 0.5, 0.25, 0.125
            f = np.float32 if k == 0 else (lambda x: x if env.sym else np.float32(x))
            kw = dict(extra=f(tr["ext"])) if extra else {}
            buf.add(observation=f(tr["obs"]), action=tr["act"], reward=f(tr["rew"]), terminal=tr["term"], **kw)
            m.add(tr)
            env.check(int(buf.size) == len(m.valid()), "number of transitions that may be sampled")
        N = len(m.stream)
        want = m.valid()
        slots = {p % cap: p for p in want}
        got = [i for i in range(cap) if bool(buf.is_valid_transition(i))]
        env.check(sorted(slots) == got, "exactly the live transitions of known outcome may be sampled")
        env.check(int(buf.add_count) == N and buf.cursor() == N % cap and bool(buf.is_full()) == (N >= cap), "bookkeeping")
        if not want:
            env.check(env.raises(lambda: buf.sample_index_batch(1), RuntimeError), "an empty buffer refuses to sample")
            return
        idx = buf.sample_index_batch(2)
        env.check(tuple(idx.shape) == (2,), "batch of indices")
        for i in env.L(idx):
            env.check(sor(*[i == s for s in slots]), "only valid indices are drawn")
        out = buf.sample_all_valid_transitions()
        rows = [slots[int(i)] for i in out.indices.reshape(-1).tolist()]
        env.check(sorted(rows) == want, "all of them, each once")
        fields = ["obs", "act", "rew"] + ["ext"] * extra
        names = dict(obs=("state", "next_state"), act=("action", "next_action"), rew=("reward", "next_reward"), ext=("extra", "next_extra"))
        flat = lambda x: (env.L(x) if isinstance(env.L(x), list) else [env.L(x)])
        for b, p in enumerate(rows):
            w = m.window(p)
            term = w[-1]["term"]
            env.eq(flat(out.step[b]), [len(w)], "number of steps")
            env.check(bool(out.terminal[b].reshape(-1)[0]) == term, "terminal")
            for f in fields:
                cur, nxt = names[f]
                if f == "rew" and not everything and not timeline:
                    env.eq(flat(out.reward[b]), [ssum(x["rew"] / (1 << j) for j, x in enumerate(w))], "discounted n-step reward")
                elif f == "rew" and timeline:
                    for j in range(len(w)):
                        env.eq(flat(out.reward[b][j]), m.stacked(p + j, "rew") if stack > 1 else [w[j]["rew"]], "reward of each step")
                else:
                    env.eq(flat(getattr(out, cur)[b]), m.stacked(p, f), f"{cur}")
                if timeline:
                    nx = getattr(out, nxt)[b]
                    env.check(len(nx) == len(w), f"{nxt}: one entry per step")
                    for j in range(len(w) - term):
                        env.eq(flat(nx[j]), m.stacked(p + 1 + j, f), f"{nxt} of each step")
                elif not term:
                    env.eq(flat(getattr(out, nxt)[b]), m.stacked(p + len(w), f), f"{nxt}")


for kw in (dict(cap=3, stack=1, n=1, adds=5), dict(cap=4, stack=1, n=2, adds=6), dict(cap=4, stack=2, n=1, adds=5), dict(cap=5, stack=2, n=2, adds=5),
           dict(cap=4, stack=1, n=3, adds=5), dict(cap=5, stack=3, n=1, adds=4)):
    suite.case(bounds="up to 6 additions, any placement of episode ends, any contents", **kw)(history_case)
suite.case(bounds="5 additions, extra column", cap=3, stack=1, n=1, adds=5, extra=True)(history_case)
suite.case(bounds="5 additions, timeline format", cap=5, stack=1, n=2, adds=5, timeline=True)(history_case)
suite.case(bounds="4 additions, timeline format, stacks", cap=5, stack=2, n=2, adds=4, timeline=True)(history_case)
suite.case(bounds="4 additions, everything stacked", cap=4, stack=2, n=1, adds=4, everything=True, extra=True)(history_case)
suite.case(tier="thorough", bounds="8 additions", cap=5, stack=2, n=2, adds=8)(history_case)
suite.case(tier="thorough", bounds="8 additions", cap=5, stack=1, n=3, adds=8)(history_case)
suite.case(tier="thorough", bounds="7 additions", cap=6, stack=3, n=2, adds=7)(history_case)


def capacity_case(env):
    cap, st, n = env.pick("cap", range(1, 6)), env.pick("st", range(1, 4)), env.pick("n", range(1, 4))
    bad = env.raises(lambda: ReplayBuffer(stack_size=st, replay_capacity=cap, update_horizon=n), ValueError)
    env.check(bad == (cap < st + n), "a capacity that cannot hold one transition is refused")


suite.case(bounds="capacity 1-5, stack 1-3, horizon 1-3")(capacity_case)
