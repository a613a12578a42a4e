"""The harness interface over concrete values (no solver): used to replay a
counterexample, and to validate sampled paths, on the untransformed code."""
from __future__ import annotations

import os
import shutil
import tempfile


class Skip(BaseException):
    pass


class NotGiven(Exception):
    pass


class Sx:
    mode = "plain"
    sym = False

    def __init__(self, inputs, params, tier, scratch):
        self.inputs = inputs
        self.params = params
        self.tier = tier
        self.scratch = scratch
        self.failed = []
        self.reached = set()
        self.obs = {}
        self.infos = {}

    # inputs
    def _in(self, name):
        if name not in self.inputs:
            # not constrained on the path that produced these inputs
            return None
        return self.inputs[name]

    def bool(self, name):
        return bool(self._in(name))

    def int(self, name, lo, hi):
        v = self._in(name)
        return lo if v is None else v

    def choice(self, name, values):
        values = list(values)
        return values[self._in(name) or 0]

    def join(self, sep, parts):
        return sep.join(parts)

    # logic
    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def in_(self, x, c):
        return x in c

    def is_(self, a, b):
        return a is b

    def lift(self, f, *args):
        return f(*args)

    def conc(self, x):
        return x

    def len(self, x):
        return len(x)

    def max(self, *a, **k):
        return max(*a, **k)

    def min(self, *a, **k):
        return min(*a, **k)

    def dict(self, *a, **k):
        return dict(*a, **k)

    def set(self, it=()):
        return set(it)

    def guarded(self, pairs):
        return {v for g, v in pairs if g}

    def frozen(self, pairs):
        return frozenset(v for g, v in pairs if g)

    def seq(self, pairs):
        return tuple(v for g, v in pairs if g)

    def memo(self, key, fn):
        return fn()

    # assumptions and assertions
    def assume(self, c):
        if not c:
            raise Skip

    def check(self, c, label, info=None):
        self.reached.add(label)
        if not c:
            self.failed.append(label)
            if info is not None:
                self.infos[label] = repr(info() if callable(info) else info)[:400]

    def reach(self, label):
        self.reached.add(label)

    def observe(self, name, v):
        self.obs[name] = norm(v)

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d


def norm(v):
    """A JSON form that does not depend on set order or scratch names."""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, (set, frozenset)):
        return {"set": sorted((norm(x) for x in v), key=repr)}
    if isinstance(v, dict):
        return {"dict": sorted(([norm(k), norm(x)] for k, x in v.items()), key=repr)}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, BaseException):
        return type(v).__name__
    n = getattr(v, "name", None)
    if type(v).__name__ == "Policy":
        return n
    return str(v)


def fresh_scratch(base=None):
    return tempfile.mkdtemp(prefix="symx-", dir=base or ("/dev/shm" if os.path.isdir("/dev/shm") else None))


def rm_scratch(d):
    assert os.path.basename(d).startswith("symx-") and os.path.isabs(d)
    shutil.rmtree(d, ignore_errors=True)
