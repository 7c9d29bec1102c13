"""Feeding symbolic transitions to the replay buffers (inputs only)."""
import contextlib
import random
import numpy as np
from reagent.replay_memory import circular_replay_buffer as crb
from checks.common import *


@contextlib.contextmanager
def symbolic_storage(env):
    """lets numbers of the harness pass where the buffers expect numpy scalars, and keeps them in torch / object arrays"""
    if not env.sym:
        yield
        return
    D = crb.DenseMetadata
    val, inp, store, empty, zeros = D.validate, D.input_to_storage, D.create_storage, np.empty, np.zeros
    plain, from_numpy = [], torch.from_numpy
    is_s = lambda x: hasattr(x, "e") or isinstance(x, S)
    def validate(self, name, x):
        return None if is_s(x) else val(self, name, x)
    def to_storage(self, x):
        return env.mk(unwrap(x)) if is_s(x) else inp(self, x)
    def create(self, n):
        plain.append(1)
        t = store(self, n)
        plain.pop()
        return env.mk(np.zeros(t.shape).tolist()).to(t.dtype)
    def obj(f):
        def g(shape, dtype=float, *a, **k):
            r = f(shape, dtype, *a, **k)
            return f(shape, object, *a, **k) if r.dtype.kind == "f" and not plain else r
        return g
    with env.patch(D, "validate", validate), env.patch(D, "input_to_storage", to_storage), env.patch(D, "create_storage", create), \
            env.patch(torch, "from_numpy", lambda a: env.mk([unwrap(x.item() if isinstance(x, np.ndarray) else x) for x in a]) if a.dtype == object else from_numpy(a)), \
            env.patch(np, "zeros", obj(zeros)), env.patch(np, "empty", obj(empty)):
        yield


@contextlib.contextmanager
def symbolic_random(env, tag="r"):
    """python's random source returns arbitrary values of the right range; yields the list of values drawn"""
    drawn = []
    def uniform(a, b):
        u = env.draw(tag, "R", 0, 1, open=False)
        env.assume(u < 1)
        drawn.append(a + u * (b - a))
        return drawn[-1]
    def rnd():
        u = env.draw(tag, "R", 0, 1)
        env.assume(u < 1)
        drawn.append(u)
        return u
    with env.patch(random, "uniform", uniform), env.patch(random, "random", rnd):
        yield drawn
