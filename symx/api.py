"""The harness interface over symbolic values."""
from __future__ import annotations

import os

import z3

from . import core, instr
from .core import (
    TRUE, Choice, SymBool, SymInt, XDict, XFrozenSet, XSet, bv, is_sym, mkb, zand, zb, znot, zor,
)
from .plainapi import norm


class Sx:
    mode = "sym"
    sym = True

    def __init__(self, ctx, params, tier, scratch):
        self.ctx = ctx
        self.params = params
        self.tier = tier
        self._sc = scratch
        self.obs = {}

    @property
    def scratch(self):
        return self._sc.get()

    # -- inputs
    def bool(self, name):
        e = z3.Bool(name)
        self.ctx.inputs[name] = ("bool", e)
        return SymBool(e)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        e = z3.BitVec(name, core.W)
        first = name not in self.ctx.inputs
        self.ctx.inputs[name] = ("int", e)
        if first:
            self.ctx.assume(z3.And(e >= bv(lo), e <= bv(hi)))
        return SymInt(e, lo, hi)

    def choice(self, name, values):
        values = list(values)
        n = len(values)
        if n == 1:
            return values[0]
        w = max(1, (n - 1).bit_length())
        var = z3.BitVec(name, w)
        first = name not in self.ctx.inputs
        self.ctx.inputs[name] = ("choice", (var, n))
        if first and n != 1 << w:
            self.ctx.assume(z3.ULT(var, z3.BitVecVal(n, w)))
        merged = {}
        for i, v in enumerate(values):
            k = core._key(v)
            if k in merged:
                merged[k][0].add(i)
            else:
                merged[k] = ({i}, v)
        alts = [(frozenset(ix), v) for ix, v in merged.values()]
        if len(alts) == 1:
            return alts[0][1]
        return Choice((var, n), alts)

    def join(self, sep, parts):
        from . import symstr
        return symstr.str_method(sep, "join", (list(parts),), {})

    # -- logic
    def And(self, *xs):
        return mkb(zand(*xs))

    def Or(self, *xs):
        return mkb(zor(*xs))

    def Not(self, x):
        return mkb(znot(zb(x)))

    def Implies(self, a, b):
        return mkb(zor(znot(zb(a)), zb(b)))

    def Iff(self, a, b):
        a, b = zb(a), zb(b)
        if z3.is_true(a):
            return mkb(b)
        if z3.is_true(b):
            return mkb(a)
        if z3.is_false(a):
            return mkb(znot(b))
        if z3.is_false(b):
            return mkb(znot(a))
        return mkb(a == b)

    def If(self, c, a, b):
        if not is_sym(c):
            return a if c else b
        return instr.merge(c, a, b)

    def eq(self, a, b):
        r = a == b
        return r

    def in_(self, x, c):
        return core.sym_in(x, c)

    def is_(self, a, b):
        return instr.sx_is(a, b)

    def lift(self, f, *args):
        return core.lift(f, *args)

    def conc(self, x):
        return instr.conc(x)

    def len(self, x):
        return instr.sx_len(x)

    def max(self, *a, **k):
        return instr._minmax(False, a, k)

    def min(self, *a, **k):
        return instr._minmax(True, a, k)

    def dict(self, *a, **k):
        return XDict(*a, **k)

    def set(self, it=()):
        return XSet(it)

    def guarded(self, pairs):
        s = XSet()
        for g, v in pairs:
            g = zb(g)
            if not g.ast.value == core._FP:
                s._add(v, g)
        return s

    def frozen(self, pairs):
        return XFrozenSet(self.guarded(pairs))

    def seq(self, pairs):
        """tuple of the values whose guard holds; decided when looked at"""
        return LazySeq(pairs)

    def memo(self, key, fn):
        """A concrete value that does not depend on the inputs; computed once,
        every path gets its own copy."""
        import copy
        if key not in _MEMO:
            n = len(self.ctx.trace)
            v = fn()
            if len(self.ctx.trace) != n:
                raise core.EngineError("memo of a computation that branched")
            _MEMO[key] = copy.deepcopy(v)
            return v
        return copy.deepcopy(_MEMO[key])

    # -- assumptions and assertions
    def assume(self, c):
        self.ctx.assume(zb(c))

    def check(self, c, label, info=None):
        self.ctx.check(mkb(zb(c)), label, info)

    def reach(self, label):
        self.ctx.reached.add(label)

    def observe(self, name, v):
        self.obs[name] = snap(v)

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d


_MEMO = {}


class LazySeq:
    _sx_ok_ = True

    def __init__(self, pairs):
        self.pairs = list(pairs)
        self.val = None

    def _v(self):
        if self.val is None:
            self.val = tuple(v for g, v in self.pairs if g)
        return self.val

    def __iter__(self):
        return iter(self._v())

    def __len__(self):
        return len(self._v())

    def __getitem__(self, i):
        return self._v()[i]

    def _sym_contains_(self, x):
        return mkb(zor(*[zand(zb(g), zb(v == x)) for g, v in self.pairs]))

    def __contains__(self, x):
        return bool(self._sym_contains_(x))

    def __eq__(self, o):
        return self._v() == tuple(o)

    def __hash__(self):
        return hash(self._v())

    def __add__(self, o):
        return self._v() + tuple(o)

    def __radd__(self, o):
        return tuple(o) + self._v()

    def __bool__(self):
        return bool(mkb(zor(*[zb(g) for g, _ in self.pairs])))

    def __repr__(self):
        return repr(self._v())

    def __deepcopy__(self, memo):
        return self

    @classmethod
    def _sx_isinstance_(cls, x, t):
        import collections.abc
        return t in (tuple, object, collections.abc.Sequence, collections.abc.Iterable)


def snap(v):
    """Freeze containers so that later mutation is not observed."""
    t = type(v)
    if t in (dict, core.XDict, core.XDefaultDict):
        return {k: snap(x) for k, x in dict.items(v)}
    if t in (list, tuple):
        return [snap(x) for x in v]
    if t in (XSet, XFrozenSet):
        return v.copy()
    if isinstance(v, set):
        return set(v)
    return v


def ev(v, model):
    """value of v under a model, normalised as plainapi.norm does"""
    t = type(v)
    if t is SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if t is SymInt:
        return model.eval(v.e, model_completion=True).as_signed_long()
    if t is Choice:
        for g, x in v.guards():
            if z3.is_true(model.eval(g, model_completion=True)):
                return ev(x, model)
        return "<no alternative>"
    if t in (XSet, XFrozenSet):
        out = {}
        for g, x in v.entries():
            if z3.is_true(model.eval(g, model_completion=True)):
                q = ev(x, model)
                out[repr(q)] = q
        return {"set": sorted(out.values(), key=repr)}
    if t in (dict, core.XDict, core.XDefaultDict):
        return {"dict": sorted(([ev(k, model), ev(x, model)] for k, x in dict.items(v)), key=repr)}
    if t in (list, tuple):
        return [ev(x, model) for x in v]
    if isinstance(v, (set, frozenset)):
        return {"set": sorted((ev(x, model) for x in v), key=repr)}
    if hasattr(t, "_sx_eval_"):
        return v._sx_eval_(model)
    if t is instr.LazyJSON:
        return str(v)
    return norm(v)
