"""Symbolic values and complete path exploration over the real Python code.

The code under test runs in CPython on proxy values.  Every decision that
depends on a symbolic value goes through Ctx.branch, where Z3 decides which
sides are feasible under the path condition; every feasible side is explored
(by re-execution), until no side is left.  Assertions are discharged by Z3
under the path condition of the path that reaches them.
"""
from __future__ import annotations

import itertools
import os
import time

import z3


class PathAbort(BaseException):
    """This path is not to be followed further (assumption false)."""


class Inconclusive(BaseException):
    """The engine cannot decide; never reported as success."""


class EngineError(Inconclusive):
    pass


_CTX = None


def ctx():
    if _CTX is None:
        raise EngineError("symbolic value used outside a path")
    return _CTX


def set_ctx(c):
    global _CTX
    _CTX = c


# --------------------------------------------------------------------------
# z3 helpers

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
# terms are hash-consed: pointer comparison decides whether a term is a constant
_TP = TRUE.ast.value
_FP = FALSE.ast.value


def is_t(e):
    return e is True or (not isinstance(e, bool) and (e.ast.value == _TP))


def is_f(e):
    return e is False or (not isinstance(e, bool) and (e.ast.value == _FP))


def zb(e):
    """python bool / SymBool / z3 -> z3 Bool."""
    if isinstance(e, SymBool):
        return e.e
    if e is True:
        return TRUE
    if e is False:
        return FALSE
    if isinstance(e, Choice):
        return e._truth()
    if isinstance(e, z3.BoolRef):
        return e
    if hasattr(type(e), "_truth"):
        return e._truth()
    return TRUE if e else FALSE


def mkb(e):
    """z3 Bool -> python bool or SymBool."""
    if isinstance(e, bool):
        return e
    if (e.ast.value == _TP):
        return True
    if (e.ast.value == _FP):
        return False
    return SymBool(e)


def _cfun(f):
    """the C function behind one of the wrappers, which check for errors each time"""
    return f.__defaults__[-1].f


_MK_AND, _MK_OR, _MK_NOT = (_cfun(f) for f in (z3.z3core.Z3_mk_and, z3.z3core.Z3_mk_or, z3.z3core.Z3_mk_not))
_CREF = z3.main_ctx().ref()
_MC = z3.main_ctx()
_AST = z3.z3types.Ast
_BoolRef = z3.BoolRef
_NOT = {}           # ast pointer -> (term, negation), both kept alive
_OPS = {}


def _mk(op, out):
    """conjunction or disjunction of at least two terms, straight from the C interface"""
    n = len(out)
    arr = (_AST * n)()
    for i, e in enumerate(out):
        arr[i] = e.ast
    return _BoolRef(op(_CREF, n, arr), _MC)


def _gather(es, unit, zero):
    """distinct terms without units; None if one is zero or two are complementary"""
    out = []
    seen = set()
    for e in es:
        if type(e) is not _BoolRef:
            e = zb(e)
        p = e.ast.value
        if p == zero:
            return None
        if p != unit and p not in seen:
            c = _NOT.get(p)
            if c is not None and c[1].ast.value in seen:
                return None
            seen.add(p)
            out.append(e)
    return out


def zand(*es):
    out = _gather(es, _TP, _FP)
    if out is None:
        return FALSE
    if len(out) < 2:
        return out[0] if out else TRUE
    return _mk(_MK_AND, out)


def zor(*es):
    out = _gather(es, _FP, _TP)
    if out is None:
        return TRUE
    if len(out) < 2:
        return out[0] if out else FALSE
    return _mk(_MK_OR, out)


def znot(e):
    if type(e) is not _BoolRef:
        e = zb(e)
    p = e.ast.value
    if p == _TP:
        return FALSE
    if p == _FP:
        return TRUE
    r = _NOT.get(p)
    if r is None:
        if len(_NOT) > 200000:
            _NOT.clear()
        n = _BoolRef(_MK_NOT(_CREF, e.ast), _MC)
        r = _NOT[p] = (e, n)
        _NOT[n.ast.value] = (n, e)
    return r[1]


def _atom(var, i):
    k = (var.ast.value, i)
    r = _ATOMS.get(k)
    if r is None:
        if len(_ATOMS) > 200000:
            _ATOMS.clear()
            _GUARDS.clear()
        r = _ATOMS[k] = (var == i, var)
    return r[0]


_ATOMS = {}
_GUARDS = {}


# --------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.forced = 0
        self.feas_queries = 0
        self.assert_queries = 0
        self.asserts_concrete = 0
        self.solver_s = 0.0

    FIELDS = (
        "paths", "aborted", "branches", "forced", "feas_queries",
        "assert_queries", "asserts_concrete", "solver_s",
    )

    def as_dict(self):
        return {k: getattr(self, k) for k in self.FIELDS}

    def add(self, d):
        for k in self.FIELDS:
            setattr(self, k, getattr(self, k) + d[k])


_SOLVER = None


def new_solver():
    s = z3.SolverFor(os.environ.get('SYMX_LOGIC', 'QF_BV'))
    s.set("timeout", 60000)
    return s


class Ctx:
    """One path."""

    def __init__(self, prefix, stats):
        global _SOLVER
        if _SOLVER is None:
            _SOLVER = new_solver()
        self.solver = _SOLVER
        self.solver.push()
        self.prefix = prefix          # list[bool]
        self.trace = []               # decisions of this path
        self.pending = []             # prefixes still to explore
        self.inputs = {}              # name -> ("bool"|"int"|"choice"|"str", data)
        self.model = None
        self.stats = stats
        self.dead = False
        self.failures = []            # (label, inputs, info)
        self.reached = set()
        self.observed = {}
        self.fresh = itertools.count()
        self.nsteps = 0
        self.sym_order = None         # key: the order in which sets are gone through
        self.functions = set()
        self.stdout = []
        self.sampling = False         # evaluating what is only logged

    def close(self):
        self.solver.pop()

    # -- solver ---------------------------------------------------------
    def _check(self, *assump):
        t = time.perf_counter()
        r = self.solver.check(*assump)
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive(f"solver: unknown ({self.solver.reason_unknown()})")
        return r == z3.sat

    def assume(self, e):
        e = zb(e)
        if (e.ast.value == _TP):
            return
        self.solver.add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
        if (e.ast.value == _FP):
            self.dead = True
            raise PathAbort
        if len(self.trace) >= len(self.prefix) and self.model is None:
            self.stats.feas_queries += 1
            if not self._check():
                self.dead = True
                raise PathAbort
            self.model = self.solver.model()

    def branch(self, e):
        if isinstance(e, bool):
            return e
        if (e.ast.value == _TP):
            return True
        if (e.ast.value == _FP):
            return False
        if self.dead:
            return False
        if self.sampling:
            return z3.is_true(self.any_model().eval(e, model_completion=True))
        self.nsteps += 1
        if self.nsteps > MAX_STEPS:
            raise Inconclusive(f"more than {MAX_STEPS} symbolic decisions on one path")
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.solver.add(e if d else z3.Not(e))
            return d
        if self.model is None:
            self.stats.feas_queries += 1
            if not self._check():
                self.dead = True
                raise PathAbort
            self.model = self.solver.model()
        here = z3.is_true(self.model.eval(e, model_completion=True))
        # is the other side feasible?
        self.stats.feas_queries += 1
        other = self._check(z3.Not(e) if here else e)
        if other:
            self.stats.branches += 1
            self.pending.append(self.trace + [not here])
        else:
            self.stats.forced += 1
        self.trace.append(here)
        if other:
            self.solver.add(e if here else z3.Not(e))
        return here

    def decide(self, guards):
        """Index of the alternative taken; the guards are exhaustive and
        pairwise disjoint under the path condition.  One decision."""
        if self.dead:
            return 0
        if self.sampling:
            m = self.any_model()
            return next(j for j, g in enumerate(guards) if z3.is_true(m.eval(g, model_completion=True)))
        self.nsteps += 1
        if self.nsteps > MAX_STEPS:
            raise Inconclusive(f"more than {MAX_STEPS} symbolic decisions on one path")
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.solver.add(guards[d])
            return d
        if self.model is None:
            self.stats.feas_queries += 1
            if not self._check():
                self.dead = True
                raise PathAbort
            self.model = self.solver.model()
        m = self.model
        found = []
        rest = list(range(len(guards)))
        self.solver.push()
        while True:
            hit = next((j for j in rest if z3.is_true(m.eval(guards[j], model_completion=True))), None)
            if hit is None:
                if not found:
                    self.solver.pop()
                    raise EngineError("alternatives of a guarded union are not exhaustive")
                self.solver.pop()
                raise EngineError("a model satisfies no alternative")
            found.append(hit)
            rest.remove(hit)
            if not rest:
                break
            self.solver.add(z3.Not(guards[hit]))
            self.stats.feas_queries += 1
            if not self._check():
                break
            m = self.solver.model()
        self.solver.pop()
        d = found[0]
        for j in found[1:]:
            self.pending.append(self.trace + [j])
        self.trace.append(d)
        if len(found) > 1:
            self.stats.branches += len(found) - 1
            self.solver.add(guards[d])
        else:
            self.stats.forced += 1
        return d

    def any_model(self):
        if self.model is None:
            self.stats.feas_queries += 1
            if not self._check():
                self.dead = True
                raise PathAbort
            self.model = self.solver.model()
        return self.model

    def logged(self, thunk):
        """Evaluate expressions whose value is only logged: once, for one
        model of this path, without splitting it.  Should that raise, they are
        evaluated like any other code."""
        if self.dead or self.sampling:
            thunk()
            return
        i = len(self.trace)
        if i < len(self.prefix):
            ok = self.prefix[i]
        else:
            self.sampling = True
            try:
                thunk()
                ok = True
            except Exception:
                ok = False
            finally:
                self.sampling = False
        self.trace.append(ok)
        if not ok:
            thunk()

    def feasible(self, e):
        e = zb(e)
        if (e.ast.value == _TP):
            return True
        if (e.ast.value == _FP):
            return False
        return self._check(e)

    # -- assertions -----------------------------------------------------
    def check(self, cond, label, info=None):
        self.reached.add(label)
        if isinstance(cond, SymBool):
            neg = znot(cond.e)
        else:
            neg = FALSE if cond else TRUE
        if (neg.ast.value == _FP):
            self.stats.asserts_concrete += 1
            return
        self.stats.assert_queries += 1
        if len(self.trace) < len(self.prefix):
            # an earlier run of this prefix has decided this assertion
            if not (neg.ast.value == _TP):
                self.solver.add(z3.Not(neg))
            else:
                self.dead = True
                raise PathAbort
            return
        if self._check(neg):
            self.failures.append((label, self.extract(self.solver.model()), info))
            # continue with the inputs that satisfy the assertion
            if (neg.ast.value == _TP):
                self.dead = True
                raise PathAbort
            self.model = None
            self.assume(z3.Not(neg))
        # unsat: holds on this path for every value

    # -- inputs ---------------------------------------------------------
    def extract(self, model):
        out = {}
        for name, (kind, data) in self.inputs.items():
            if kind == "bool":
                out[name] = z3.is_true(model.eval(data, model_completion=True))
            elif kind == "int":
                v = model.eval(data, model_completion=True)
                out[name] = v.as_signed_long()
            elif kind == "choice":
                var, n = data
                out[name] = model.eval(var, model_completion=True).as_long() if var is not None else 0
            elif kind == "str":
                out[name] = "".join(
                    c if isinstance(c, str) else chr(model.eval(c, model_completion=True).as_long())
                    for c in data
                )
        return out


MAX_STEPS = 20000


# --------------------------------------------------------------------------
# SymBool


class SymBool:
    __slots__ = ("e",)
    _symx_ = True

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def _bin(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, bool):
            return zb(o)
        return None

    def __and__(self, o):
        e = self._bin(o)
        return NotImplemented if e is None else mkb(zand(self.e, e))

    __rand__ = __and__

    def __or__(self, o):
        e = self._bin(o)
        return NotImplemented if e is None else mkb(zor(self.e, e))

    __ror__ = __or__

    def __xor__(self, o):
        e = self._bin(o)
        return NotImplemented if e is None else mkb(z3.Xor(self.e, e))

    __rxor__ = __xor__

    def __eq__(self, o):
        e = self._bin(o)
        if e is None:
            return bool(self) == o
        return mkb(self.e == e)

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return SymInt.of(self) + o

    __radd__ = __add__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return repr(bool(self))


def sym_not(x):
    if isinstance(x, SymBool):
        return mkb(znot(x.e))
    if isinstance(x, Choice):
        return mkb(znot(x._truth()))
    return not x


# --------------------------------------------------------------------------
# SymInt: Python int as a 64-bit vector with an interval that excludes wrap

W = 64
LIM = 1 << 62


def bv(v):
    return z3.BitVecVal(v, W)


class SymInt:
    __slots__ = ("e", "lo", "hi")
    _symx_ = True

    def __init__(self, e, lo, hi):
        if lo < -LIM or hi > LIM:
            raise Inconclusive("integer range left the modelled 62 bits")
        self.e, self.lo, self.hi = e, lo, hi

    @staticmethod
    def mk(e, lo, hi):
        if lo == hi:
            return lo
        return SymInt(e, lo, hi)

    @staticmethod
    def of(v):
        if isinstance(v, SymInt):
            return v
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return SymInt(bv(v), v, v)
        if isinstance(v, SymBool):
            return SymInt(z3.If(v.e, bv(1), bv(0)), 0, 1)
        return None

    def _arith(self, o, f, rng):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        lo, hi = rng(self, o)
        return SymInt.mk(f(self.e, o.e), lo, hi)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: (a.lo + b.lo, a.hi + b.hi))

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: (a.lo - b.hi, a.hi - b.lo))

    def __rsub__(self, o):
        o = SymInt.of(o)
        return NotImplemented if o is None else o - self

    def __neg__(self):
        return 0 - self

    def __mul__(self, o):
        def rng(a, b):
            ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return min(ps), max(ps)
        return self._arith(o, lambda a, b: a * b, rng)

    __rmul__ = __mul__

    @staticmethod
    def _nn(a, b):
        if a.lo < 0 or b.lo < 0:
            raise Inconclusive("bit operation on a possibly negative symbolic int")

    @staticmethod
    def _mask(n):
        return (1 << n.bit_length()) - 1

    def __and__(self, o):
        def rng(a, b):
            if a.lo < 0 and b.lo < 0:
                raise Inconclusive("bit operation on negative symbolic ints")
            his = [x.hi for x in (a, b) if x.lo >= 0]
            return 0, min(his)
        return self._arith(o, lambda a, b: a & b, rng)

    __rand__ = __and__

    def __or__(self, o):
        def rng(a, b):
            SymInt._nn(a, b)
            return max(a.lo, b.lo), SymInt._mask(a.hi | b.hi)
        return self._arith(o, lambda a, b: a | b, rng)

    __ror__ = __or__

    def __xor__(self, o):
        def rng(a, b):
            SymInt._nn(a, b)
            return 0, SymInt._mask(a.hi | b.hi)
        return self._arith(o, lambda a, b: a ^ b, rng)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        return SymInt.mk(self.e >> bv(min(o, W - 1)), self.lo >> o, self.hi >> o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and self.lo >= 0:
            return SymInt.mk(z3.UDiv(self.e, bv(o)), self.lo // o, self.hi // o)
        return self.__index__() // o

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and self.lo >= 0:
            return SymInt.mk(z3.URem(self.e, bv(o)), 0, min(o - 1, self.hi))
        return self.__index__() % o

    def __pow__(self, o):
        return self.__index__() ** o

    def _cmp(self, o, f, lt):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        return mkb(z3.simplify(f(self.e, o.e)) if lt else f(self.e, o.e))

    def __eq__(self, o):
        o2 = SymInt.of(o)
        if o2 is None:
            if isinstance(o, Choice):
                return NotImplemented
            return False
        if o2.hi < self.lo or self.hi < o2.lo:
            return False
        return mkb(z3.simplify(self.e == o2.e))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        if self.hi < o.lo:
            return True
        if self.lo >= o.hi:
            return False
        return mkb(self.e < o.e)

    def __gt__(self, o):
        o = SymInt.of(o)
        return NotImplemented if o is None else o < self

    def __le__(self, o):
        o = SymInt.of(o)
        return NotImplemented if o is None else sym_not(o < self)

    def __ge__(self, o):
        o = SymInt.of(o)
        return NotImplemented if o is None else sym_not(self < o)

    def __bool__(self):
        r = self == 0
        return not bool(r)

    def __index__(self):
        return concretize(self)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def bit_length(self):
        return self.__index__().bit_length()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return repr(self.__index__())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.__index__(), spec)


# --------------------------------------------------------------------------
# Choice: guarded union over a finite domain of concrete values


def _key(v):
    if type(v) in SYM_TYPES:
        return ("id", id(v))
    try:
        hash(v)
    except TypeError:
        return ("id", id(v))
    return (type(v), v)


import pathlib as _pl  # noqa: E402

_HASHED = {str, int, bool, type(None), bytes, _pl.PosixPath}


class Choice:
    """sel is None: alts are (z3 guard, value); otherwise alts are
    (frozenset of selector indices, value)."""

    __slots__ = ("sel", "alts", "_g")
    _symx_ = True

    def __init__(self, sel, alts):
        self.sel = sel
        self.alts = alts
        self._g = None

    # guards ------------------------------------------------------------
    def guards(self):
        if self._g is None:
            if self.sel is None:
                self._g = list(self.alts)
            else:
                var, n = self.sel
                out = []
                for idx, v in self.alts:
                    out.append((sel_guard(var, n, idx), v))
                self._g = out
        return self._g

    def _truth(self):
        gs = self.guards()
        return zor(*[zand(g, zb(v)) if isinstance(v, SymBool) else g for g, v in gs if isinstance(v, SymBool) or v])

    def __bool__(self):
        return ctx().branch(self._truth())

    def __hash__(self):
        return hash(concretize(self))

    def __eq__(self, o):
        if type(o) is Choice and len(self.alts) * len(o.alts) > 64:
            if all(type(v) in _HASHED for _, v in self.alts) and all(type(v) in _HASHED for _, v in o.alts):
                d = {}
                for g, v in self.guards():
                    d.setdefault(v, []).append(g)
                return mkb(zor(*[zand(zor(*d[v]), g) for g, v in o.guards() if v in d]))
        return lift_bool(_eq, self, o)

    def __ne__(self, o):
        return sym_not(self == o)

    def __lt__(self, o):
        r = _ordered(self, o, "lt")
        return lift_bool(lambda a, b: a < b, self, o) if r is None else r

    def __gt__(self, o):
        r = _ordered(self, o, "gt")
        return lift_bool(lambda a, b: a > b, self, o) if r is None else r

    def __le__(self, o):
        r = _ordered(self, o, "le")
        return lift_bool(lambda a, b: a <= b, self, o) if r is None else r

    def __ge__(self, o):
        r = _ordered(self, o, "ge")
        return lift_bool(lambda a, b: a >= b, self, o) if r is None else r

    def __contains__(self, o):
        return bool(lift_bool(lambda a, b: b in a, self, o))

    def __iter__(self):
        lens = set()
        for _, v in self.guards():
            if isinstance(v, (tuple, list)):
                lens.add(len(v))
            else:
                lens.add(None)
        if len(lens) == 1 and None not in lens:
            n = lens.pop()
            return iter([lift(lambda t, i=i: t[i], self) for i in range(n)])
        return iter(concretize(self))

    def __len__(self):
        return int(concretize(lift(len, self)))

    def __getitem__(self, i):
        return lift(lambda v, j: v[j], self, i)

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__") and name not in ("__name__", "__class__"):
            raise AttributeError(name)
        vals = []
        anycall = False
        for g, v in self.guards():
            try:
                a = getattr(v, name)
            except AttributeError:
                # only an error if feasible
                v2 = concretize(self)
                return getattr(v2, name)
            if callable(a):
                anycall = True
            vals.append(a)
        if anycall:
            return LiftedMethod(self, name)
        return lift(lambda v: getattr(v, name), self)

    def __call__(self, *a, **k):
        return concretize(self)(*a, **k)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return repr(concretize(self))

    def __str__(self):
        return str(concretize(self))

    def __format__(self, spec):
        return format(concretize(self), spec)

    def __fspath__(self):
        import os
        return os.fspath(concretize(self))

    def __index__(self):
        return concretize(self).__index__()

    def __int__(self):
        return int(concretize(self))

    def __enter__(self):
        return concretize(self).__enter__()

    def __exit__(self, *a):
        return concretize(self).__exit__(*a)


def _eq(a, b):
    return a == b


def sel_guard(var, n, idx):
    if len(idx) == n:
        return TRUE
    if not idx:
        return FALSE
    k = (var.ast.value, n, idx)
    r = _GUARDS.get(k)
    if r is None:
        if len(idx) == 1:
            r = _atom(var, next(iter(idx)))
        elif len(idx) * 2 > n:
            r = [_atom(var, i) for i in range(n) if i not in idx]
            r = znot(zor(*r))
        else:
            r = zor(*[_atom(var, i) for i in sorted(idx)])
        _GUARDS[k] = r
    return r


def _mkop(op):
    def f(self, o):
        return lift(op, self, o)

    def r(self, o):
        return lift(lambda a, b: op(b, a), self, o)

    return f, r


import operator as _op  # noqa: E402

for _n, _o in (
    ("add", _op.add), ("sub", _op.sub), ("mul", _op.mul), ("truediv", _op.truediv),
    ("floordiv", _op.floordiv), ("mod", _op.mod), ("and", _op.and_), ("or", _op.or_),
    ("xor", _op.xor), ("lshift", _op.lshift), ("rshift", _op.rshift),
):
    _f, _r = _mkop(_o)
    setattr(Choice, f"__{_n}__", _f)
    setattr(Choice, f"__r{_n}__", _r)


PURE_METHOD_TYPES = (str, bytes, int, tuple, float)
PURE_PATH_METHODS = {
    "as_posix", "relative_to", "is_absolute", "joinpath", "with_name", "with_suffix",
    "is_relative_to", "match", "as_uri", "with_stem", "__truediv__", "__rtruediv__",
    # these read the file system, which does not change while the
    # alternatives are evaluated
    "resolve", "absolute", "exists", "is_file", "is_dir", "is_symlink", "expanduser",
}


class LiftedMethod:
    __slots__ = ("recv", "name")
    _symx_ = True

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __call__(self, *a, **k):
        import pathlib
        import re
        pure = all(
            (isinstance(v, PURE_METHOD_TYPES) or v is None)
            or (isinstance(v, pathlib.PurePath) and self.name in PURE_PATH_METHODS)
            or isinstance(v, (re.Match, re.Pattern, frozenset))
            for _, v in self.recv.guards()
        )
        if pure and not any(isinstance(x, SymBool) for x in a):
            name = self.name
            if name == "join" and a:
                return concretize(self.recv).join(a[0])
            return lift(lambda v, *aa: getattr(v, name)(*aa, **k), self.recv, *a)
        v = concretize(self.recv)
        return getattr(v, self.name)(*a, **k)


class _Raise:
    def __init__(self, exc):
        self.exc = exc


MAX_ALTS = 4096
_SIMPLE_EXC = {ValueError, TypeError, KeyError, IndexError, AttributeError}


def _alts_of(x):
    if isinstance(x, Choice):
        return x
    return None


def lift(f, *args):
    """Apply a pure function to guarded unions; exact on every alternative."""
    cs = [a for a in args if isinstance(a, Choice)]
    if not cs:
        return f(*args)
    sel = cs[0].sel
    if sel is not None and all(c.sel is not None and z3.eq(c.sel[0], sel[0]) for c in cs):
        # all functions of one selector: stay exact on indices
        combos = [(None, ())]
        for a in args:
            if isinstance(a, Choice):
                combos = [
                    (idx if ci is None else ci & idx, cv + (v,))
                    for ci, cv in combos
                    for idx, v in a.alts
                    if ci is None or (ci & idx)
                ]
            else:
                combos = [(ci, cv + (a,)) for ci, cv in combos]
        merged = {}
        for idx, vals in combos:
            try:
                r = f(*vals)
            except Exception as e:  # noqa: BLE001
                r = _Raise(e)
            k = _key(r)
            if k in merged:
                merged[k] = (merged[k][0] | idx, merged[k][1])
            else:
                merged[k] = (idx, r)
        return _finish(sel, list(merged.values()))
    n = 1
    for c in cs:
        n *= len(c.alts)
    if n > MAX_ALTS:
        # concretise the largest operand and go on
        big = max(range(len(args)), key=lambda i: len(args[i].alts) if isinstance(args[i], Choice) else 0)
        args = list(args)
        args[big] = concretize(args[big])
        return lift(f, *args)
    combos = [(TRUE, ())]
    for a in args:
        if isinstance(a, Choice):
            combos = [(zand(g, gg), cv + (v,)) for g, cv in combos for gg, v in a.guards()]
        else:
            combos = [(g, cv + (a,)) for g, cv in combos]
    merged = {}
    for g, vals in combos:
        if (g.ast.value == _FP):
            continue
        try:
            r = f(*vals)
        except Exception as e:  # noqa: BLE001
            r = _Raise(e)
        k = _key(r)
        if k in merged:
            merged[k] = (merged[k][0] + [g], merged[k][1])
        else:
            merged[k] = ([g], r)
    return _finish(None, [(zor(*gs), r) for gs, r in merged.values()])


def _finish(sel, alts):
    rs = [(g, r) for g, r in alts if isinstance(r, _Raise)]
    if rs:
        groups = {}
        for g, r in rs:
            t = type(r.exc)
            a = r.exc.args
            simple = t in _SIMPLE_EXC and len(a) == 1 and type(a[0]) is str
            groups.setdefault(t if simple else id(r), []).append((g, r.exc))
        for gs in groups.values():
            if len(gs) == 1:
                g, exc = gs[0]
            else:
                # one exception whose message depends on the alternative
                byarg = {}
                for g, x in gs:
                    byarg.setdefault(x.args[0], []).append(g)
                if sel is None:
                    g = zor(*[g for g, _ in gs])
                    alts2 = [(zor(*v), m) for m, v in byarg.items()]
                else:
                    g = frozenset().union(*[g for g, _ in gs])
                    alts2 = [(frozenset().union(*v), m) for m, v in byarg.items()]
                exc = type(gs[0][1])(alts2[0][1] if len(alts2) == 1 else Choice(sel, alts2))
            gg = g if sel is None else sel_guard(sel[0], sel[1], g)
            if ctx().branch(gg):
                raise exc
        alts = [(g, r) for g, r in alts if not isinstance(r, _Raise)]
        if not alts:
            ctx().dead = True
            raise PathAbort
    if any(isinstance(r, Choice) for _, r in alts):
        flat = []
        for g, r in alts:
            gg = g if sel is None else sel_guard(sel[0], sel[1], g)
            if isinstance(r, Choice):
                flat.extend((zand(gg, g2), v2) for g2, v2 in r.guards())
            else:
                flat.append((gg, r))
        sel, alts = None, flat
    if any(isinstance(r, (SymBool,)) for _, r in alts) and all(isinstance(r, (bool, SymBool)) for _, r in alts):
        return mkb(zor(*[
            zand(g if sel is None else sel_guard(sel[0], sel[1], g), zb(r)) for g, r in alts
        ]))
    if len(alts) == 1:
        return alts[0][1]
    if all(isinstance(r, bool) for _, r in alts):
        return mkb(zor(*[
            (g if sel is None else sel_guard(sel[0], sel[1], g)) for g, r in alts if r
        ]))
    return Choice(sel, alts)


def _ordered(a, b, op):
    """comparison of two unions of many totally ordered values, linear in their number"""
    if type(b) is not Choice or len(a.alts) * len(b.alts) <= 64:
        return None
    if a.sel is not None and b.sel is not None and z3.eq(a.sel[0], b.sel[0]):
        return None
    ts = {type(v) for _, v in a.alts} | {type(v) for _, v in b.alts}
    if len(ts) != 1 or not ts <= {str, int}:
        return None
    if op in ("gt", "le"):
        a, b = b, a             # a > b  =  b < a;   a <= b  =  not b < a
    # now a < b, or its negation for le, ge
    vals = {}
    for g, v in a.guards():
        vals.setdefault(v, ([], []))[0].append(g)
    for g, v in b.guards():
        vals.setdefault(v, ([], []))[1].append(g)
    above = FALSE               # b is greater than the value at hand
    out = []
    for v in sorted(vals, reverse=True):
        ga, gb = vals[v]
        if ga:
            out.append(zand(zor(*ga), above))
        if gb:
            above = zor(above, *gb)
    r = zor(*out)
    return mkb(znot(r) if op in ("le", "ge") else r)


def lift_bool(f, *args):
    r = lift(lambda *a: _asbool(f(*a)), *args)
    return r


def _asbool(v):
    if isinstance(v, (SymBool, bool)):
        return v
    return bool(v)


def concretize(x):
    """Fork over every feasible value (finite domains only)."""
    if isinstance(x, Choice):
        gs = x.guards()
        return concretize(gs[ctx().decide([g for g, _ in gs])][1])
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        c = ctx()
        if c.dead:
            return x.lo
        # deterministic order: ask the solver for the values in this region
        if x.hi - x.lo > 4096:
            raise Inconclusive("concretisation of a wide symbolic integer")
        v = x.lo
        while v < x.hi:
            if c.branch(z3.simplify(x.e == bv(v))):
                return v
            v += 1
        return x.hi
    if hasattr(x, "_concretize_"):
        return x._concretize_()
    return x


SYM_TYPES = {SymBool, SymInt, Choice, LiftedMethod}


def is_sym(x):
    return type(x) in SYM_TYPES


# --------------------------------------------------------------------------
# XSet: a set whose membership may be guarded


def contains_eq(entries, x):
    out = []
    for g, v in entries:
        r = v == x
        out.append(zand(g, zb(r)))
    return mkb(zor(*out))


class XSet:
    """A set whose membership may be guarded: .base holds the unconditional
    concrete members, .ext a list of (guard, value) whose value may itself be
    symbolic.  Not a subclass of set, so that no C code can look past .ext."""

    frozen = False
    __slots__ = ("base", "ext")

    def __init__(self, it=()):
        self.base = {}
        self.ext = []
        self._fill(it)

    def _fill(self, it):
        if isinstance(it, XSet):
            self.base.update(it.base)
            self.ext.extend(it.ext)
        elif type(it) in (set, frozenset):
            self.base.update(dict.fromkeys(it))
        else:
            base = self.base
            for x in it:
                if type(x) is str:
                    base[x] = None
                else:
                    self._add(x)

    def _add(self, x, g=TRUE):
        if is_sym(x) or not (g.ast.value == _TP):
            if not is_sym(x) and x in self.base:
                return
            self.ext.append((g, x))
        else:
            self.base[x] = None

    def entries(self):
        out = [(TRUE, v) for v in self.base]
        out.extend(self.ext)
        return out

    def _new(self, entries):
        r = type(self)()
        for g, v in entries:
            if not (g.ast.value == _FP):
                r._add(v, g)
        return r

    def has(self, x):
        if not is_sym(x):
            if x in self.base:
                return True
            if not self.ext:
                return False
        elif not self.ext and isinstance(x, Choice):
            base = self.base
            return lift_bool(lambda v: v in base, x)
        return contains_eq(self.entries(), x)

    def __contains__(self, x):
        return bool(self.has(x))

    def __iter__(self):
        seen = []
        if _CTX is not None and _CTX.sym_order:
            yield from self._in_order(_CTX.sym_order)
            return
        for v in list(self.base):
            seen.append(v)
            yield v
        for g, v in list(self.ext):
            dup = contains_eq([(TRUE, s) for s in seen], v) if seen else False
            if ctx().branch(zand(g, znot(zb(dup)))):
                seen.append(v)
                yield v

    def _in_order(self, key):
        """Any order is a legal outcome for text (hash randomisation): the one a harness asks for"""
        seen = []
        for g, v in sorted(reversed(self.entries()), key=lambda e: key("" if is_sym(e[1]) else e[1])):
            dup = contains_eq([(TRUE, s) for s in seen], v) if seen and not (g.ast.value == _TP) else False
            if g.ast.value == _TP or ctx().branch(zand(g, znot(zb(dup)))):
                seen.append(v)
                yield v

    def truth(self):
        if self.base:
            return True
        return mkb(zor(*[g for g, _ in self.ext]))

    def __bool__(self):
        return bool(self.truth())

    def __len__(self):
        if not self.ext:
            return len(self.base)
        return sum(1 for _ in self)

    def symlen(self):
        if not self.ext:
            return len(self.base)
        # exact without forking only for pairwise distinct concrete values
        vals = [v for _, v in self.ext]
        if any(is_sym(v) for v in vals) or len({_key(v) for v in vals}) != len(vals):
            return len(self)
        tot = len(self.base)
        for g, _ in self.ext:
            tot = tot + SymInt(z3.If(g, bv(1), bv(0)), 0, 1)
        return tot

    @staticmethod
    def _lk(o):
        if isinstance(o, XSet):
            return o.has
        if not isinstance(o, (set, frozenset, dict, XKeys)):
            o = XSet(o)
            return o.has
        return lambda x: sym_in(x, o)

    def __and__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        c = _concrete(o)
        if c is not None and not self.ext:
            r = type(self)()
            r.base = {v: None for v in self.base if v in c}
            return r
        has = self._lk(o)
        return self._new([(zand(g, zb(has(v))), v) for g, v in self.entries()])

    __rand__ = __and__

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & (o if isinstance(o, SETLIKE) else XSet(o))
        return type(self)(r)

    def __or__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        r = type(self)(self)
        r._fill(o)
        return r

    def __ror__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        return type(self)(o) | self

    def union(self, *os):
        r = type(self)(self)
        for o in os:
            r._fill(o)
        return r

    def __sub__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        c = _concrete(o)
        if c is not None and not self.ext:
            r = type(self)()
            r.base = {v: None for v in self.base if v not in c}
            return r
        has = self._lk(o)
        return self._new([(zand(g, znot(zb(has(v)))), v) for g, v in self.entries()])

    def __rsub__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        return type(self)(o) - self

    def difference(self, *os):
        r = self
        for o in os:
            r = r - (o if isinstance(o, SETLIKE) else XSet(o))
        return type(self)(r)

    def __xor__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        return (self - o) | (XSet(o) - self)

    __rxor__ = __xor__

    def symmetric_difference(self, o):
        return self ^ XSet(o)

    def subset_of(self, o):
        c = _concrete(o)
        if c is not None:
            for v in self.base:
                if v not in c:
                    return False
            if not self.ext:
                return True
            has = self._lk(o)
            return mkb(zand(*[zor(znot(g), zb(has(v))) for g, v in self.ext]))
        has = self._lk(o)
        return mkb(zand(*[zor(znot(g), zb(has(v))) for g, v in self.entries()]))

    issubset = subset_of

    def issuperset(self, o):
        return XSet(o).subset_of(self)

    def __le__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        return self.subset_of(o)

    def __ge__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        return XSet(o).subset_of(self)

    def __lt__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        return mkb(zand(zb(self.subset_of(o)), znot(zb(XSet(o).subset_of(self)))))

    def __gt__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        return XSet(o) < self

    def __eq__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        return mkb(zand(zb(self.subset_of(o)), zb(XSet(o).subset_of(self))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def isdisjoint(self, o):
        return sym_not((self & (o if isinstance(o, SETLIKE) else XSet(o))).truth())

    def __hash__(self):
        if not self.frozen:
            raise TypeError("unhashable type: 'set'")
        return hash(frozenset(iter(self)))

    def copy(self):
        return type(self)(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy as _c
        r = type(self)()
        for v in self.base:
            r.base[_c.deepcopy(v, memo)] = None
        r.ext = list(self.ext)
        return r

    def __reduce__(self):
        return (type(self), (list(self),))

    # mutation
    def add(self, x):
        self._add(x)

    def update(self, *os):
        for o in os:
            self._fill(o)

    def __ior__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        if self.frozen:
            return self | o
        self._fill(o)
        return self

    def _replace(self, r):
        self.base = dict(r.base)
        self.ext = list(r.ext)

    def __isub__(self, o):
        if self.frozen:
            return self - o
        self._replace(self - o)
        return self

    def difference_update(self, *os):
        self._replace(self.difference(*os))

    def __iand__(self, o):
        if self.frozen:
            return self & o
        self._replace(self & o)
        return self

    def intersection_update(self, *os):
        self._replace(self.intersection(*os))

    def discard(self, x):
        if not self.ext and not is_sym(x):
            self.base.pop(x, None)
        else:
            self._replace(self - XSet([x]))

    def remove(self, x):
        if not self.has(x):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for v in self:
            self.discard(v)
            return v
        raise KeyError("pop from an empty set")

    def clear(self):
        self.base = {}
        self.ext = []

    def __repr__(self):
        xs = list(self)
        inner = "{" + ", ".join(map(repr, xs)) + "}" if xs else "" if self.frozen else "set()"
        return f"frozenset({inner})" if self.frozen else inner


def _concrete(o):
    """a container with exact membership of concrete values, or None"""
    if isinstance(o, XSet):
        return None if o.ext else o.base
    if isinstance(o, (set, frozenset)):
        return o
    return None


class XFrozenSet(XSet):
    __slots__ = ()
    frozen = True

    for _m in ("add", "update", "discard", "remove", "pop", "clear",
               "difference_update", "intersection_update"):
        locals()[_m] = property(lambda self, _m=_m: (_ for _ in ()).throw(
            AttributeError(f"'frozenset' object has no attribute {_m!r}")))
    del _m

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------------------
# XDict


def sym_in(x, c):
    """x in c without forking where possible"""
    if isinstance(c, XSet):
        return c.has(x)
    if isinstance(c, XDict):
        return c.has(x)
    if isinstance(c, XKeys):
        return c.d.has(x)
    if isinstance(c, Choice):
        return lift_bool(lambda cc, xx: bool(sym_in(xx, cc)) if is_sym(xx) else xx in cc, c, x)
    if hasattr(c, "_sym_contains_"):
        return c._sym_contains_(x)
    if type(c) in (list, tuple):
        if is_sym(x) or any(is_sym(v) for v in c):
            return mkb(zor(*[zb(v is x or v == x) for v in c]))
        return x in c
    if is_sym(x):
        if isinstance(x, Choice) and isinstance(c, (str, bytes, set, frozenset, dict, range)):
            return lift_bool(lambda v: v in c, x)
        if hasattr(x, "_sym_in_") and isinstance(c, str):
            return x._sym_in_(c)
        if isinstance(c, (set, frozenset, dict)) or hasattr(c, "keys"):
            return mkb(zor(*[zb(v == x) for v in c]))
    return x in c


class XDict(dict):
    """dict that accepts symbolic keys: a lookup is decided by the solver
    against the keys present; an insertion forks on which key it is."""

    def __init__(self, *a, **k):
        super().__init__()
        if a:
            src = a[0]
            if isinstance(src, dict) or hasattr(src, "keys"):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def _resolve(self, k):
        """concrete key equal to k, or k concretised"""
        if not is_sym(k):
            return k
        if isinstance(k, (SymBool, SymInt)):
            return concretize(k)
        if isinstance(k, Choice):
            return concretize(k)
        for kk in dict.keys(self):
            r = kk == k
            if r is True or (r is not False and bool(r)):
                return kk
        return k

    def has(self, k):
        if not is_sym(k):
            return dict.__contains__(self, k) or (
                self._symkeys() and bool(zor_eq(self._symkeys(), k)))
        if isinstance(k, Choice):
            return lift_bool(lambda v: v in self, k)
        return mkb(zor(*[zb(kk == k) for kk in dict.keys(self)]))

    def _symkeys(self):
        return [kk for kk in dict.keys(self) if is_sym(kk)]

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        if isinstance(k, Choice):
            base = self
            return lift(lambda v: base[v], k)
        if is_sym(k):
            k = self._resolve(k)
        return dict.__getitem__(self, k)

    def __missing__(self, k):
        for kk in self._symkeys():
            if kk == k:
                return dict.__getitem__(self, kk)
        raise KeyError(k)

    def get(self, k, default=None):
        if isinstance(k, Choice):
            return lift(lambda v: self.get(v, default), k)
        if is_sym(k):
            k = self._resolve(k)
        elif not dict.__contains__(self, k):
            for kk in self._symkeys():
                if kk == k:
                    return dict.__getitem__(self, kk)
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return default

    def __setitem__(self, k, v):
        if is_sym(k):
            k = self._resolve(k)
        elif not dict.__contains__(self, k):
            for kk in self._symkeys():
                if kk == k:
                    k = kk
                    break
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        if is_sym(k):
            k = self._resolve(k)
        dict.__delitem__(self, k)

    def setdefault(self, k, d=None):
        if is_sym(k):
            k = self._resolve(k)
        if k in self:
            return self[k]
        self[k] = d
        return d

    def pop(self, k, *d):
        if is_sym(k):
            k = self._resolve(k)
        return dict.pop(self, k, *d)

    def update(self, *a, **k):
        for kk, v in XDict(*a, **k).items():
            self[kk] = v

    def __or__(self, o):
        r = type(self)(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        return type(self)(self)

    __copy__ = copy

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = cls()
        for k in ks:
            d[k] = v
        return d

    def __deepcopy__(self, memo):
        import copy as _c
        r = self._blank()
        for k, v in dict.items(self):
            dict.__setitem__(r, _c.deepcopy(k, memo), _c.deepcopy(v, memo))
        return r

    def _blank(self):
        return type(self)()

    def keys(self):
        return XKeys(self)


def zor_eq(keys, k):
    return mkb(zor(*[zb(kk == k) for kk in keys]))


class XKeys:
    """dict view with set operations that keep symbolic members"""

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return dict.__iter__(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def _sym_contains_(self, k):
        return self.d.has(k)

    def __and__(self, o):
        return XSet(self) & (o if isinstance(o, XSet) else XSet(o))

    def __rand__(self, o):
        return XSet(o) & XSet(self)

    def __or__(self, o):
        return XSet(self) | XSet(o)

    __ror__ = __or__

    def __sub__(self, o):
        return XSet(self) - (o if isinstance(o, XSet) else XSet(o))

    def __rsub__(self, o):
        return XSet(o) - XSet(self)

    def __eq__(self, o):
        return XSet(self) == XSet(o)

    def __le__(self, o):
        return XSet(self) <= XSet(o)

    def __ge__(self, o):
        return XSet(o) <= XSet(self)

    def isdisjoint(self, o):
        return XSet(self).isdisjoint(o)

    def __reversed__(self):
        return reversed(list(self))

    def __repr__(self):
        return f"dict_keys({list(self)!r})"


class XDefaultDict(XDict):
    default_factory = None

    def __init__(self, factory=None, *a, **k):
        self.default_factory = {set: XSet, dict: XDict, frozenset: XFrozenSet}.get(factory, factory)
        super().__init__(*a, **k)

    def __getitem__(self, k):
        if is_sym(k):
            k = self._resolve(k)
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.__missing__(k)

    def __missing__(self, k):
        for kk in self._symkeys():
            if kk == k:
                return dict.__getitem__(self, kk)
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        dict.__setitem__(self, k, v)
        return v

    def copy(self):
        return XDefaultDict(self.default_factory, self)

    __copy__ = copy

    def _blank(self):
        return XDefaultDict(self.default_factory)


SETLIKE = (XSet, set, frozenset, XKeys, type({}.keys()), type({}.items()))
