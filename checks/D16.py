"""Sum tree and prioritized sampling: proportional, never a zero-priority or invalid entry."""
import numpy as np
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
from reagent.replay_memory.sum_tree import SumTree
from checks.common import *
from checks.replay import symbolic_random, symbolic_storage

suite = Suite("D16", ["priorities are multiples read as exact reals (no rounding drift in the sums)",
                      "a tree's total and each drawn position differ from every leaf boundary by rounding-safe margins in replays"])


def tree_case(env, n, sets, query=None, order=False):
    """after any sequence of assignments leaf i is picked exactly for positions in its own share of [0, total]"""
    val = [0] * n
    with symbolic_storage(env):
        t = SumTree(n)
        top = 1.0
        for k in range(sets):
            i = env.pick(f"i{k}", range(n)) if order else k
            v = env.num(f"v{k}", 0, 8)
            t.set(i, v)
            val[i] = v
            top = smax(top, v)
            env.eq(t.max_recorded_priority, top, "largest priority seen")
        for i in range(n):
            env.eq(t.get(i), val[i], "stored priority")
        tot = ssum(val)
        env.assume(tot > 0.0625)
        q = env.num("q", 0, 1) if query is None else query
        # stay clear of the boundaries between leaves, where rounding of a replay would decide
        acc = 0
        for v in val:
            acc = acc + v
            env.assume(sor(v == 0, sand(v >= 0.0078125, sor(acc == tot, sabs(q * tot - acc) >= 0.0009765625))))
        got = t.sample(query_value=q)
    env.check(0 <= got < n, "an entry of the buffer")
    env.lt(0, val[got], "its priority is positive")
    env.le(ssum(val[:got]), q * tot, "share begins before the query")
    env.le(q * tot, ssum(val[:got + 1]), "share ends after the query")


for n in (1, 2, 3, 4):
    suite.case(bounds="1-4 entries set once, any position in [0,1]", n=n, sets=n)(tree_case)
suite.case(bounds="3 assignments to any of 3 entries", n=3, sets=3, order=True)(tree_case)
suite.case(bounds="4 entries, position 1", n=4, sets=4, query=1.0)(tree_case)
suite.case(bounds="3 entries, position 1", n=3, sets=3, query=1.0)(tree_case)
suite.case(tier="thorough", bounds="5-6 entries", n=6, sets=6)(tree_case)
suite.case(tier="thorough", bounds="4 assignments to any of 2 entries", n=2, sets=4, order=True)(tree_case)


def strat_case(env, n, B):
    val = [env.num(f"v{k}", 0, 8) for k in range(n)]
    with symbolic_storage(env):
        t = SumTree(n)
        for i, v in enumerate(val):
            t.set(i, v)
        tot = ssum(val)
        env.assume(tot > 0.0625)
        with symbolic_random(env) as q:
            got = t.stratified_sample(B)
    env.check(len(got) == B and len(q) == B, "one draw per stratum")
    for k, (i, x) in enumerate(zip(got, q)):
        acc = 0
        for v in val:
            acc = acc + v
            env.assume(sor(v == 0, sand(v >= 0.0078125, sor(acc == tot, sabs(x * tot - acc) >= 0.0009765625))))
        env.le(k / B, x, "the k-th draw lies in the k-th stratum")
        env.le(x, (k + 1) / B, "the k-th draw lies in the k-th stratum")
        env.check(0 <= i < n, "an entry of the buffer")
        env.lt(0, val[i], "its priority is positive")
        env.le(ssum(val[:i]), x * tot, "share begins before the query")
        env.le(x * tot, ssum(val[:i + 1]), "share ends after the query")


suite.case(bounds="3 entries, 2 strata", n=3, B=2)(strat_case)
suite.case(bounds="2 entries, 4 strata", n=2, B=4)(strat_case)


def refuse_case(env):
    with symbolic_storage(env):
        t = SumTree(2)
        env.check(env.raises(lambda: t.sample(), Exception), "an empty tree cannot be sampled")
        env.check(env.raises(lambda: t.stratified_sample(2), Exception), "an empty tree cannot be sampled")
        v = env.num("v", -2, 2)
        bad = env.raises(lambda: t.set(0, v), ValueError)
        env.check(sor(sand(bad, v < 0), sand(not bad, v >= 0)), "exactly the negative priorities are refused")
        env.eq(t.get(0), smax(v, 0), "a refused priority is not stored")
        t.set(1, 1.0)
        q = env.num("q", -1, 2)
        bad = env.raises(lambda: t.sample(query_value=q), ValueError)
        env.check(sor(sand(bad, sor(q < 0, q > 1)), sand(not bad, q >= 0, q <= 1)), "exactly the positions outside [0, 1] are refused")
    env.check(env.raises(lambda: SumTree(0), ValueError), "capacity must be positive")


suite.case(bounds="any priority in [-2,2], any position in [-1,2]")(refuse_case)


def buffer_case(env, cap, adds, B, attempts=2, batch_size=None):
    """sampled transitions are valid, have positive priority, and report it"""
    pr = [env.num(f"p{k}", 0, 4) for k in range(adds)]
    term = [bool(env.flag(f"t{k}")) for k in range(adds)]
    with symbolic_storage(env):
        buf = PrioritizedReplayBuffer(stack_size=1, replay_capacity=cap, batch_size=B, update_horizon=1, gamma=0.5, max_sample_attempts=attempts)
        buf.add(observation=np.float32(0), action=0, reward=np.float32(0), terminal=False, priority=np.float32(0))
        for k in range(adds):
            buf.add(observation=np.float32(k + 1), action=k + 1, reward=np.float32(k), terminal=term[k], priority=pr[k])
        total = adds + 1
        live = {j % cap: j for j in range(max(0, total - cap), total)}
        prio = {s: (pr[j - 1] if j else 0) for s, j in live.items()}
        valid = {s: (j < total - 1 or (j and term[j - 1])) for s, j in live.items()}
        new = env.num("new", 0, 4)
        slot = env.pick("slot", sorted(live))
        buf.set_priority(np.array([slot], dtype=np.int32), [new])
        prio[slot] = new
        env.eq([buf.get_priority(np.array([s], dtype=np.int32))[0] for s in sorted(live)], [prio[s] for s in sorted(live)], "priority of each entry")
        env.assume(ssum(prio.values()) > 0.0625)
        for v in prio.values():
            env.assume(sor(v == 0, v >= 0.0078125))
        with symbolic_random(env):
            try:
                out = buf.sample_transition_batch(batch_size)
            except RuntimeError:
                # attempts exhausted: only possible when some invalid entry has a positive priority, or nothing is valid
                env.check(sor(*[sand(prio[s] > 0, not valid[s]) for s in live], not any(valid.values())), "gives up only because of invalid entries")
                return
        env.shape(out.indices, (B, 1), "batch size")
        for b in range(B):
            i = int(out.indices[b][0])
            env.check(i in live and bool(valid[i]), "a valid transition")
            env.lt(0, prio[i], "of positive priority")
            env.eq(out.sampling_probabilities[b][0], prio[i], "its priority is reported")
            env.eq(out.state[b][0], live[i], "contents of the sampled entry")
            env.eq(out.action[b][0], live[i], "contents of the sampled entry")


suite.case(bounds="capacity 2, 3 transitions, batch of 1", cap=2, adds=2, B=1)(buffer_case)
suite.case(bounds="capacity 3, 3 transitions, batch of 2", cap=3, adds=2, B=2, attempts=1)(buffer_case)
suite.case(bounds="capacity 3, 3 transitions, explicit batch of 1", cap=3, adds=2, B=1, batch_size=1)(buffer_case)
suite.case(tier="thorough", bounds="capacity 3, 5 transitions, batch of 1", cap=3, adds=4, B=1)(buffer_case)


def priorities_case(env, cap, stack, adds):
    """every slot carries the priority of what was last written there; blank entries that open an episode carry none"""
    pr = [env.num(f"p{k}", 0, 4) for k in range(adds)]
    want, n, term = {}, 0, True
    with symbolic_storage(env):
        buf = PrioritizedReplayBuffer(stack_size=stack, replay_capacity=cap, batch_size=1, update_horizon=1, gamma=0.5)
        buf.add(observation=np.float32(0), action=0, reward=np.float32(0), terminal=False, priority=np.float32(1))
        for j in range(stack - 1):
            want[n], n = 0, n + 1
        want[n % cap], n, term = 1, n + 1, False
        for k in range(adds):
            if term:
                for j in range(stack - 1):
                    want[n % cap], n = 0, n + 1
            term = bool(env.flag(f"t{k}"))
            buf.add(observation=np.float32(k + 1), action=k + 1, reward=np.float32(k), terminal=term, priority=pr[k])
            want[n % cap], n = pr[k], n + 1
        ix = sorted(want)
        env.eq([buf.get_priority(np.array([s], dtype=np.int32))[0] for s in ix], [want[s] for s in ix], "priority of each slot")


suite.case(bounds="capacity 3, 5 transitions", cap=3, stack=1, adds=4)(priorities_case)
suite.case(bounds="capacity 5, stack 2, 4 transitions", cap=5, stack=2, adds=3)(priorities_case)
