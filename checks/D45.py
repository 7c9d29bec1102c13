"""Replay buffers: lists of ids, checkpoints, and datasets exported from them."""
import contextlib
import os
import shutil
import tempfile
import numpy as np
from reagent.replay_memory import circular_replay_buffer as crb
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
from reagent.replay_memory.utils import replay_buffer_to_pre_timeline_df
from symex import elem as E
from checks.common import *
from checks.D17 import Model
from checks.replay import symbolic_storage

suite = Suite("D45", ["ids lie in [0, 9], scores and observations in [-8, 8]", "lists after a terminal step are unspecified"])


def has_s(x):
    if isinstance(x, dict):
        return any(has_s(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(has_s(v) for v in x)
    return isinstance(x, S)


@contextlib.contextmanager
def symbolic_lists(env):
    with symbolic_storage(env), contextlib.ExitStack() as st:
        if env.sym:
            for c in (crb.IDListMetadata, crb.IDScoreListMetadata):
                st.enter_context(env.patch(c, "validate", lambda self, name, x, real=c.validate: None if has_s(x) else real(self, name, x)))
        yield


def valid_rows(env, buf, m, cap):
    """positions in the stream, in the order the buffer gives them"""
    return sorted(m.valid(), key=lambda p: p % cap)


def lists_case(env, cap, n, adds):
    """each sampled transition comes with its own lists, and those of the state it leads to"""
    m, rows = Model(cap, 1, n), []
    with symbolic_lists(env):
        buf = ReplayBuffer(stack_size=1, replay_capacity=cap, batch_size=1, update_horizon=n, gamma=0.5)
        for t in range(adds):
            k = 2 if t == 0 else env.pick(f"n{t}", [0, 1])
            k2 = 1 if t == 0 else (t + 1) % 3
            if t == 0:
                ids, more, liked = [3, 4], [5], ([6], [0.5])
            else:
                ids, more = [env.inum(f"a{t}.{i}", 0, 9) for i in range(k)], [env.inum(f"b{t}.{i}", 0, 9) for i in range(k2)]
                liked = ([env.inum(f"c{t}.{i}", 0, 9) for i in range(k2)], [env.num(f"w{t}.{i}", -8, 8) for i in range(k2)])
            term = bool(env.flag(f"t{t}"))
            r = dict(seen=ids, had=more, liked=liked, term=term)
            buf.add(observation=np.float32(t), action=t, reward=np.float32(1), terminal=term, lists={"seen": ids, "had": more}, scored={"liked": liked})
            m.add(r)
            rows.append(r)
        ok = valid_rows(env, buf, m, cap)
        env.eq(buf.size, len(ok), "how many can be sampled")
        if not ok:
            return
        got = buf.sample_all_valid_transitions()
    env.eq(got.indices.reshape(-1), [p % cap for p in ok], "which ones")

    def cut(pair, b, which):
        off, vals = env.L(pair[0]), env.L(pair[which])
        off = [int(o) for o in off] + [len(vals)]
        env.check(off[0] == 0 and sorted(off) == off and len(off) == len(ok) + 1, "where each list starts")
        return vals[off[b]:off[b + 1]]
    for b, p in enumerate(ok):
        w = m.window(p)
        for pre, at in (("", p), ("next_", None if w[-1]["term"] else p + len(w))):
            if at is None:
                continue
            r = rows[at]
            lists, scored = getattr(got, pre + "lists"), getattr(got, pre + "scored")
            env.check(set(lists) == {"seen", "had"} and set(scored) == {"liked"}, "kinds of lists")
            for k in ("seen", "had"):
                env.check(lists[k][1].dtype == torch.int64, "ids are whole numbers")
                have = cut(lists[k], b, 1)
                env.check(len(have) == len(r[k]), pre + "how many ids")
                env.eq(have, list(r[k]), pre + "ids")
            for i in (0, 1):
                have = cut(scored["liked"], b, i + 1)
                env.check(len(have) == len(r["liked"][i]), pre + "how many scores")
                env.close(have, list(r["liked"][i]), pre + ("scored ids", "scores")[i], 1e-5)


suite.case(bounds="3 transitions, room for 3", cap=3, n=1, adds=3)(lists_case)
suite.case(bounds="4 transitions, room for 3", cap=3, n=1, adds=4)(lists_case)
suite.case(bounds="4 transitions, room for 5, two steps", cap=5, n=2, adds=4)(lists_case)
suite.case(tier="thorough", bounds="6 transitions, room for 4, two steps", cap=4, n=2, adds=6)(lists_case)


def refused_case(env):
    """what does not fit what was stored first is refused"""
    buf = ReplayBuffer(stack_size=1, replay_capacity=4, batch_size=1)
    first = dict(observation=np.float32(1), action=1, reward=np.float32(1), terminal=False, lists={"a": [1, 2], "b": []}, scored={"c": ([1], [0.5])})
    buf.add(**first)
    bad = env.pick("bad", ["name", "kind", "number", "uneven", "bare", "whole scores", "shape", "missing", "extra", "none"])
    change = {"name": dict(lists={"z": [1], "b": []}), "kind": dict(lists=[1, 2]), "number": dict(lists={"a": [1.5], "b": []}), "uneven": dict(scored={"c": ([1, 2], [0.5])}),
              "bare": dict(scored={"c": [1]}), "whole scores": dict(scored={"c": ([1], [2])}), "shape": dict(observation=np.zeros(2, dtype=np.float32)), "extra": dict(more=1.0)}
    kw = dict(first, **change.get(bad, {}))
    if bad == "missing":
        del kw["scored"]
    env.check(env.raises(lambda: buf.add(**kw), AssertionError, ValueError, KeyError) == (bad != "none"), f"refused: {bad}")
    env.check(int(buf.add_count) == (2 if bad == "none" else 1), "nothing of it is kept")
    env.check(env.raises(lambda: ReplayBuffer(stack_size=1, replay_capacity=4).add(**{k: v for k, v in first.items() if k != env.pick("without", crb.REQUIRED_KEYS)}), AssertionError), "a transition has four parts at least")


suite.case(bounds="every kind of misfit")(refused_case)


def plain(a):
    """arrays of the engine's constants as the arrays numpy would have written"""
    if a.dtype != object:
        return a
    vals = [E.to_float(unwrap(v)) for v in a.reshape(-1)]
    kind = bool if all(isinstance(v, bool) for v in vals) else np.int64 if all(isinstance(v, int) for v in vals) else np.float32
    return np.array([kind(v) for v in vals], dtype=kind).reshape(a.shape)


@contextlib.contextmanager
def scratch(env):
    d = tempfile.mkdtemp(prefix="d45-")
    with contextlib.ExitStack() as st:
        if env.sym:
            st.enter_context(env.patch(np, "save", lambda f, a, real=np.save, **kw: real(f, plain(a), **kw)))
        try:
            yield d
        finally:
            shutil.rmtree(d)


def parts(env, x):
    if isinstance(x, torch.Tensor):
        return x.tolist()
    if isinstance(x, dict):
        return {k: [t.tolist() for t in v] for k, v in x.items()}
    return [parts(env, v) for v in x] if isinstance(x, (list, tuple)) else x


def alike(env, a, b, label):
    env.check(a.size == b.size and int(a.add_count) == int(b.add_count) and a.cursor() == b.cursor(), label + ": size and position")
    env.check([bool(a.is_valid_transition(i)) for i in range(a._replay_capacity)] == [bool(b.is_valid_transition(i)) for i in range(a._replay_capacity)], label + ": what can be sampled")
    if not a.size:
        return
    x, y = a.sample_all_valid_transitions(), b.sample_all_valid_transitions()
    env.check(x._fields == y._fields, label + ": parts")
    done = x.terminal.reshape(-1).tolist()
    for f in x._fields:
        if f.startswith("next_") and any(done):         # unspecified after the end of an episode
            if not isinstance(getattr(x, f), torch.Tensor):
                continue
            keep = torch.tensor([i for i, d in enumerate(done) if not d], dtype=torch.int64)
            env.check(getattr(x, f)[keep].tolist() == getattr(y, f)[keep].tolist(), f"{label}: {f}")
        else:
            env.check(parts(env, getattr(x, f)) == parts(env, getattr(y, f)), f"{label}: {f}")


def tr(t, term, lists):
    kw = dict(observation=np.array([t + 0.5, -t], dtype=np.float32), action=t % 3, reward=np.float32(t * 0.25), terminal=term, weight=np.float32(t))
    if lists:
        kw.update(seen={"a": [t] * (t % 3), "b": [t + 1]}, liked={"c": ([t, t][: t % 2 + 1], [0.5, t * 1.0][: t % 2 + 1])})
    return kw


def restore_case(env, cap, stack, n, adds, more, lists, other=0):
    """a buffer restored from a checkpoint is the one saved: same contents, same samples, and it goes on alike"""
    mk = lambda: ReplayBuffer(stack_size=stack, replay_capacity=cap, batch_size=1, update_horizon=n, gamma=0.5)
    a, b = mk(), mk()
    terms = [bool(env.flag(f"t{t}")) for t in range(adds + more)]
    with scratch(env) as d:
        for t in range(adds):
            a.add(**tr(t, terms[t], lists))
        a.save(d, 7)
        for t in range(other):
            b.add(**tr(20 + t, bool(env.flag(f"o{t}")), lists))
        if not other:
            b.initialize_buffer(**tr(0, False, lists))
        b.load(d, 7)
        alike(env, a, b, "restored")
        for t in range(adds, adds + more):
            a.add(**tr(t, terms[t], lists))
            b.add(**tr(t, terms[t], lists))
        alike(env, a, b, "and on")


suite.case(bounds="3 transitions, room for 4", cap=4, stack=1, n=1, adds=3, more=1, lists=False)(restore_case)
suite.case(bounds="4 transitions, room for 3, into a buffer in use", cap=3, stack=1, n=2, adds=4, more=2, lists=False, other=2)(restore_case)
suite.case(bounds="3 transitions with lists", cap=4, stack=1, n=1, adds=3, more=1, lists=True)(restore_case)
suite.case(bounds="stacks of 2", cap=5, stack=2, n=1, adds=3, more=2, lists=False, other=1)(restore_case)
suite.case(tier="thorough", bounds="5 transitions, room for 4", cap=4, stack=1, n=2, adds=5, more=4, lists=True, other=2)(restore_case)


def priority_case(env, adds):
    """priorities are checkpointed with the transitions"""
    mk = lambda: PrioritizedReplayBuffer(stack_size=1, replay_capacity=4, batch_size=1)
    a, b = mk(), mk()
    ps = [float(env.pick(f"p{t}", [0.5, 2.0, 3.0])) for t in range(adds)]
    terms = [bool(env.flag(f"t{t}")) for t in range(adds)]
    with scratch(env) as d:
        for t in range(adds):
            a.add(**tr(t, terms[t], False), priority=ps[t])
        a.save(d, 1)
        b.add(**tr(9, False, False), priority=9.0)
        b.load(d, 1)
    ix = torch.arange(min(adds, 4))
    env.check(a.get_priority(ix.numpy().astype(np.int32)).tolist() == b.get_priority(ix.numpy().astype(np.int32)).tolist() == ps, "priorities")
    env.check(a.size == b.size, "how many can be sampled")
    env.check(a.sum_tree._total_priority() == b.sum_tree._total_priority(), "all priorities together")


suite.case(bounds="3 transitions", adds=3)(priority_case)


def versions_case(env):
    """the last checkpoints stay; each brings back its own moment; an incomplete one is refused and changes nothing"""
    step = env.pick("step", [1, 2, 3])
    mk = lambda: ReplayBuffer(stack_size=1, replay_capacity=8, batch_size=1)
    a = mk()
    with scratch(env) as d:
        at = [i * step for i in range(6)]
        for k, i in enumerate(at):
            a.add(**tr(k, True, False))
            a.save(d, i)
        gone = env.pick("version", range(6))
        b = mk()
        b.add(**tr(9, False, False))
        # a checkpoint goes when the one four iterations later is written
        if at[gone] + 4 in at:
            env.check(env.raises(lambda: b.load(d, at[gone]), FileNotFoundError), "old checkpoints go")
        else:
            b.load(d, at[gone])
            env.check(b.size == gone + 1 and b.sample_all_valid_transitions().reward.reshape(-1).tolist() == [k * 0.25 for k in range(gone + 1)], "the moment it was saved")
        c = mk()
        c.add(**tr(9, True, False))
        names = sorted(f for f in os.listdir(d) if f.endswith(f".{at[-1]}.gz") and not f.startswith("_"))
        env.check(len(names) == 6, "files of a checkpoint")
        os.remove(os.path.join(d, env.pick("lost", names)))
        env.check(env.raises(lambda: c.load(d, at[-1]), FileNotFoundError), "an incomplete checkpoint is refused")
        env.check(int(c.add_count) == 1 and c.size == 1 and c.sample_all_valid_transitions().reward.reshape(-1).tolist() == [9 * 0.25], "and changes nothing")
        c.save(os.path.join(d, "nowhere"), 1)
        env.check(not os.path.exists(os.path.join(d, "nowhere")), "no directory, no checkpoint")


suite.case(bounds="6 checkpoints")(versions_case)


def export_case(env, T, cap, box):
    """the exported dataset has every transition that can be sampled, once"""
    m, rows = Model(cap, 1, 1), []
    f = (lambda x: x) if env.sym else np.float32
    with symbolic_storage(env):
        buf = ReplayBuffer(stack_size=1, replay_capacity=cap, batch_size=1)
        for t in range(T):
            r = dict(o=env.num(f"o{t}", -8, 8), r=env.num(f"r{t}", -8, 8), p=env.num(f"p{t}", -4, 0), term=bool(env.flag(f"t{t}")), id=m.episode if m.stream and not m.stream[-1]["term"] else m.episode + 1, t=t,
                     a=env.num(f"a{t}", -1, 1) if box else env.pick(f"a{t}", [0, 1, 2]))
            if t == 0:
                r.update(o=0.5, r=0.25, p=-0.5, **(dict(a=0.5) if box else {}))
            g = np.float32 if t == 0 else f
            obs = np.array([1.0, -2.0 * t], dtype=np.float32)
            act = np.array([t, 0.25 * t], dtype=np.float32) if box else r["a"]
            buf.add(observation=obs, action=act, reward=g(r["r"]), terminal=r["term"], mdp_id=r["id"], sequence_number=t, log_prob=g(r["p"]))
            m.add(r)
            rows.append(r)
        ok = valid_rows(env, buf, m, cap)
        if not ok:
            return
        with env.patch(np, "exp", (lambda x: torch.exp(x)) if env.sym else np.exp):
            df = replay_buffer_to_pre_timeline_df(not box, buf)
    env.check(len(df) == len(ok), "as many rows as transitions")
    flat = lambda x: x[0] if isinstance(x, (list, tuple)) else x
    acts = sorted({rows[p]["a"] for p in ok}) if not box else None
    for b, p in enumerate(ok):
        w, r = df.iloc[b], rows[p]
        env.eq(int(w["sequence_number"]), p, "every transition once")
        env.eq(int(flat(w["mdp_id"])), r["id"], "episode")
        env.close([w["reward"], w["metrics"]["reward"]], [r["r"]] * 2, "reward", 1e-5)
        env.close([w["action_probability"]], [sexp(r["p"])], "chance of the action", 1e-5)
        env.check(sorted(w["state_features"]) == [0, 1], "features by position")
        env.close([w["state_features"][0], w["state_features"][1]], [1.0, -2.0 * p], "features", 1e-5)
        if box:
            env.check(sorted(w["action"]) == [0, 1], "parts of the action")
            env.close([w["action"][0], w["action"][1]], [p, 0.25 * p], "action", 1e-5)
        else:
            env.check(w["action"] == str(r["a"]), "action")
            env.check(list(w["possible_actions"]) == ([] if r["term"] else [str(a) for a in acts]), "actions possible")
            env.check(list(w["possible_actions_mask"]) == ([] if r["term"] else [1] * len(acts)), "which of them are")


suite.case(bounds="3 discrete transitions", T=3, cap=4, box=False)(export_case)
suite.case(bounds="4 transitions, room for 3", T=4, cap=3, box=True)(export_case)
