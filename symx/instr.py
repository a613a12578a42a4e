"""Loads /repo/src/auditwheel from source, every run, with each expression
that could meet a symbolic value routed through a helper.

The transformation keeps evaluation order and meaning for ordinary values;
for symbolic values the helpers either compute exactly on guarded unions or
fork (concretise).  Nothing about the code is assumed except that it is Python.
"""
from __future__ import annotations

import ast
import builtins
import collections
import functools
import importlib.abc
import importlib.machinery
import itertools
import json
import logging
import os
import pathlib
import re
import stat
import sys
import types

import z3

from . import core
from . import fsx, symstr, world
from .world import VFILES
from .core import (
    Choice, LiftedMethod, SymBool, SymInt, XDefaultDict, XDict, XFrozenSet, XKeys, XSet,
    concretize, is_sym, lift, lift_bool, mkb, sym_in, sym_not, zand, zb, znot, zor,
)

PREFIX = "auditwheel"

# --------------------------------------------------------------------------
# helpers called by the transformed code


_PLAIN = {str, int, bool, type(None), bytes, float, pathlib.PosixPath}


def contains_sym(x, depth=3):
    t = type(x)
    if t in _PLAIN:
        return False
    if t in core.SYM_TYPES:
        return True
    if depth == 0:
        return False
    if t in (list, tuple):
        for v in x:
            if type(v) not in _PLAIN and contains_sym(v, depth - 1):
                return True
        return False
    if t in (XSet, XFrozenSet):
        return bool(x.ext)
    if t in (dict, XDict, XDefaultDict):
        for k, v in dict.items(x):
            if type(k) not in _PLAIN and is_sym(k):
                return True
            if type(v) not in _PLAIN and contains_sym(v, depth - 1):
                return True
    return False


def conc(x, depth=6):
    """Concretise, forking, through containers."""
    t = type(x)
    if t in core.SYM_TYPES:
        return concretize(x)
    if depth == 0:
        return x
    if t is list and contains_sym(x):
        return [conc(v, depth - 1) for v in x]
    if t is tuple and contains_sym(x):
        return tuple(conc(v, depth - 1) for v in x)
    if t is XSet:
        return {conc(v) for v in x}
    if t is XFrozenSet:
        return frozenset(conc(v) for v in x)
    if t in (dict, XDict, XDefaultDict) and contains_sym(x):
        return {conc(k): conc(v, depth - 1) for k, v in dict.items(x)}
    return x


PURE_FUNCS = {
    os.path.join, os.path.basename, os.path.dirname, os.path.normpath, os.path.splitext,
    os.path.split, os.path.isabs, os.path.relpath, re.match, re.search, re.sub, re.fullmatch,
    re.compile, re.split, re.findall, pathlib.Path, pathlib.PurePath, pathlib.PurePosixPath,
    int, float, str, ord, chr, abs, repr, hex, tuple.__getitem__,
    # reads of the file system, which does not change meanwhile
    os.path.realpath, os.path.abspath, os.path.exists, os.path.isfile, os.path.isdir, os.path.islink,
    os.path.lexists, os.path.expanduser, os.path.commonpath, os.path.normcase,
}
import fnmatch as _fnm  # noqa: E402
import urllib.parse as _up  # noqa: E402
PURE_FUNCS |= {_fnm.fnmatch, _fnm.fnmatchcase, _up.quote, _up.unquote}

PURE_RECV = (str, bytes, int, re.Pattern, re.Match, tuple)

TRANSPARENT = {
    sorted, any, all, list, tuple, zip, enumerate, map, filter, reversed, iter, next, id,
    hasattr, getattr, setattr, callable, type, super, sum, range, slice, print, object, hash,
    bool,
    # these only iterate
    itertools.product, itertools.chain, itertools.zip_longest, itertools.combinations,
    itertools.permutations, itertools.islice, itertools.repeat, collections.deque,
}

CONTAINER_RECV = (list, dict, set, frozenset, collections.deque, collections.OrderedDict)

MAPPED = {
    set: XSet, frozenset: XFrozenSet, dict: XDict, collections.defaultdict: XDefaultDict,
    collections.OrderedDict: XDict,
}

_METHODS = (types.BuiltinMethodType, types.MethodWrapperType)


def _own(f):
    """Is f code that runs under this instrumentation (or a harness stub)?"""
    if isinstance(f, types.MethodType):
        f = f.__func__
    if isinstance(f, types.FunctionType):
        return "_sx_call_" in f.__globals__ or getattr(f, "_sx_ok_", False)
    if isinstance(f, type):
        return f.__module__.startswith(PREFIX) or getattr(f, "_sx_ok_", False)
    w = getattr(f, "__wrapped__", None)
    if w is not None:
        return _own(w)
    if isinstance(f, functools.partial):
        return True
    return getattr(f, "_sx_ok_", False)


def merge(c, a, b):
    """a if c else b, without forking"""
    if a is b:
        return a
    c = zb(c)
    if (type(a) is SymInt or type(b) is SymInt) and type(a) in (int, SymInt) and type(b) in (int, SymInt):
        a, b = SymInt.of(a), SymInt.of(b)
        return SymInt.mk(z3.If(c, a.e, b.e), min(a.lo, b.lo), max(a.hi, b.hi))
    alts = []
    for g, v in ((c, a), (znot(c), b)):
        if isinstance(v, Choice):
            alts += [(zand(g, gg), vv) for gg, vv in v.guards()]
        else:
            alts.append((g, v))
    merged = {}
    for g, v in alts:
        k = core._key(v)
        if k in merged:
            merged[k] = (zor(merged[k][0], g), v)
        else:
            merged[k] = (g, v)
    alts = list(merged.values())
    if len(alts) == 1:
        return alts[0][1]
    if all(isinstance(v, (bool, SymBool)) for _, v in alts):
        return mkb(zor(*[zand(g, zb(v)) for g, v in alts]))
    return Choice(None, alts)


_NO = object()


def _minmax(want_less, args, kw):
    key = kw.get("key")
    default = kw.get("default", _NO)
    if len(args) == 1:
        items = list(iter(args[0]))
    else:
        items = list(args)
    if not items:
        if default is _NO:
            raise ValueError(("min" if want_less else "max") + "() iterable argument is empty")
        return default
    best = items[0]
    bk = call(key, best) if key else best
    for x in items[1:]:
        k = call(key, x) if key else x
        less = (k < bk) if want_less else (k > bk)
        if isinstance(less, SymBool):
            best = merge(less, x, best)
            bk = merge(less, k, bk)
        elif less:
            best, bk = x, k
    return best


def sx_isinstance(x, t):
    if isinstance(t, tuple):
        r = False
        for tt in t:
            q = sx_isinstance(x, tt)
            if isinstance(q, SymBool):
                r = q if r is False else mkb(zor(zb(r), zb(q)))
            elif q:
                return True
        return r
    tx = type(x)
    if tx is Choice:
        return lift_bool(lambda v: sx_isinstance(v, t), x)
    if tx is SymBool:
        return t in (bool, int, object)
    if tx is SymInt:
        return t in (int, object)
    if tx is XSet:
        return t is set or t is object or (t is not frozenset and _abc(t, set))
    if tx is XFrozenSet:
        return t is frozenset or t is object or (t is not set and _abc(t, frozenset))
    if hasattr(tx, "_sx_isinstance_"):
        return tx._sx_isinstance_(x, t)
    if isinstance(t, type) and t in (XDict,):
        t = dict
    return isinstance(x, t)


def _abc(t, base):
    try:
        return issubclass(base, t)
    except TypeError:
        return False


def sx_len(x):
    t = type(x)
    if t is Choice:
        return lift(sx_len, x)
    if t in (XSet, XFrozenSet):
        return x.symlen()
    if hasattr(t, "_sx_len_"):
        return x._sx_len_()
    return len(x)


class LazyJSON:
    """json.dumps of a value that may be symbolic; rendered only on demand"""

    _sx_ok_ = True

    def __init__(self, obj, args, kw):
        self.obj, self.args, self.kw = obj, args, kw

    def __str__(self):
        return _real_dumps(conc_json(self.obj), *self.args, **self.kw)

    __repr__ = __str__

    def __len__(self):
        return len(str(self))

    def __add__(self, o):
        return str(self) + str(o)

    def __radd__(self, o):
        return o + str(self)

    def __eq__(self, o):
        return str(self) == o

    def __hash__(self):
        return hash(str(self))

    def __iter__(self):
        return iter(str(self))

    def __contains__(self, o):
        return o in str(self)

    def __getitem__(self, i):
        return str(self)[i]

    def __format__(self, spec):
        return format(str(self), spec)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(str(self), n)

    def __add__(self, o):
        return str(self) + o

    def __radd__(self, o):
        return o + str(self)

    def __eq__(self, o):
        return str(self) == str(o)

    def __hash__(self):
        return hash(str(self))


def conc_json(x):
    import dataclasses
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return x
    return conc(x)


_real_dumps = json.dumps


def sx_any(it):
    acc = []
    for v in it:
        if isinstance(v, (SymBool, Choice)):
            acc.append(zb(v))
        elif v:
            return True
    return mkb(zor(*acc)) if acc else False


def sx_all(it):
    acc = []
    for v in it:
        if isinstance(v, (SymBool, Choice)):
            acc.append(zb(v))
        elif not v:
            return False
    return mkb(zand(*acc)) if acc else True


def _through(g):
    """a function given to map(), filter() and the like: its calls come here too"""
    if g is None or not callable(g) or _own(g) or type(g) is LiftedMethod:
        return g
    return lambda *a, **k: call(g, *a, **k)


_HIGHER = {map, filter, itertools.starmap, itertools.takewhile, itertools.dropwhile, itertools.filterfalse, functools.reduce, functools.partial}


def call(f, *a, **k):
    tf = type(f)
    if (tf is type or tf is types.BuiltinFunctionType) and f in _HIGHER and a:
        a = (_through(a[0]), *a[1:])
    elif k and "key" in k and k["key"] is not None:
        k["key"] = _through(k["key"])
    if tf is types.FunctionType or tf is types.MethodType:
        ff = f if tf is types.FunctionType else f.__func__
        if type(ff) is types.FunctionType and "_sx_call_" in ff.__globals__:
            return f(*a, **k)
    if tf is LiftedMethod:
        return f(*a, **k)
    if VFILES:
        v = None
        if f is open and a and not (len(a) > 1 and a[1] not in ("r", "rt")):
            v = world.vopen(conc(a[0]))
        elif tf is types.MethodType and f.__func__ in (pathlib.Path.open, pathlib.Path.read_text):
            if not (f.__func__ is pathlib.Path.open and a and a[0] not in ("r", "rt")):
                v = world.vopen(f.__self__)
            if v is not None and f.__func__ is pathlib.Path.read_text:
                return v.read()
        if v is not None:
            return v
        if f is json.loads and a and isinstance(a[0], world.JsonText):
            return a[0].fresh()
        if f is json.load and a and isinstance(a[0], world.VJson):
            return a[0].read().fresh()
    if f is os.stat and a and fsx.MODES:
        return fsx.wrap_stat(a[0], f(*a, **k))
    if tf is types.MethodType and f.__func__ is pathlib.Path.stat and fsx.MODES:
        return fsx.wrap_stat(f.__self__, f(*a, **k))
    if f is stat.S_IMODE and type(a[0]) is SymInt:
        return a[0] & 0o7777
    if tf is type and f in MAPPED:
        return MAPPED[f](*a, **k)
    if f is isinstance:
        return sx_isinstance(*a)
    if f is len:
        return sx_len(*a)
    if f is min:
        return _minmax(True, a, k)
    if f is max:
        return _minmax(False, a, k)
    if f is any:
        return sx_any(*a)
    if f is all:
        return sx_all(*a)
    if f is print and core._CTX is not None and k.get("file") is None:
        core._CTX.stdout.append(a)
        return None
    if f is _real_dumps:
        if core._CTX is not None:
            return LazyJSON(a[0], a[1:], k)
        return f(*a, **k)
    if f is bool:
        return mkb(zb(a[0])) if a and is_sym(a[0]) else bool(*a)
    if tf is types.BuiltinMethodType and a and type(a[0]) in _LAZY and type(f.__self__) is str:
        a = (list(a[0]), *a[1:])
    if a and not isinstance(getattr(f, "__self__", None), logging.Logger) and not _own(f) and \
            any(type(x) is LazyJSON for x in (*a, *k.values())):
        a = tuple(str(x) if type(x) is LazyJSON else x for x in a)
        k = {n: str(x) if type(x) is LazyJSON else x for n, x in k.items()}
    # anything symbolic at hand?
    direct = False
    deep = False
    for x in a:
        t = type(x)
        if t in core.SYM_TYPES:
            direct = True
        elif t in _CONT and contains_sym(x):
            deep = True
    if k:
        for x in k.values():
            t = type(x)
            if t in core.SYM_TYPES:
                direct = True
            elif t in _CONT and contains_sym(x):
                deep = True
    if core._CTX is not None and core._CTX.sampling and _own(f):
        raise RuntimeError("not sampled")
    if not direct and not deep:
        return f(*a, **k)
    if _own(f):
        return f(*a, **k)
    if isinstance(f, type) and issubclass(f, BaseException):
        return f(*a, **k)       # only keeps them
    try:
        if f in TRANSPARENT:
            return f(*a, **k)
    except TypeError:
        pass
    recv = getattr(f, "__self__", None)
    if recv is itertools.chain:
        return f(*a, **k)       # chain.from_iterable
    if isinstance(recv, logging.Logger) and f.__name__ in _LOGM and not recv.name.endswith(_PRINTS):
        return None     # what is logged is not part of any property
    if recv is not None and not isinstance(recv, types.ModuleType):
        if isinstance(recv, CONTAINER_RECV) or type(recv) in (XSet, XFrozenSet, XKeys):
            return f(*a, **k)
        if isinstance(recv, PURE_RECV) and isinstance(f, _METHODS):
            if hasattr(core, "str_method") and isinstance(recv, str):
                r = core.str_method(recv, f.__name__, a, k)
                if r is not NotImplemented:
                    return r
            if not deep and not any(type(x) in (SymBool, SymInt) for x in a):
                if all(type(x) is not Choice for x in k.values()):
                    return lift(lambda *aa: f(*aa, **k), *a)
        if isinstance(recv, pathlib.PurePath) and f.__name__ in core.PURE_PATH_METHODS and not deep:
            return lift(lambda *aa: f(*aa, **k), *a)
    elif not deep and not k:
        try:
            pure = f in PURE_FUNCS or getattr(f, "_sx_pure_", False)
        except TypeError:
            pure = False
        if pure:
            if all(type(x) is Choice or x_plain(x) for x in a):
                return lift(f, *a)
            if f is int and type(a[0]) in (SymInt, SymBool):
                return a[0] if type(a[0]) is SymInt else SymInt.of(a[0])
    if f in (str, repr) and len(a) == 1 and hasattr(a[0], "_sx_str_"):
        return a[0]._sx_str_()
    return f(*[conc(x) for x in a], **{n: conc(x) for n, x in k.items()})


def x_plain(x):
    return type(x) not in core.SYM_TYPES


_PRINTS = "main_lddtree"      # what this module logs is what the command prints
_LOGM = {"debug", "info", "warning", "error", "critical", "exception", "log", "warn"}
_LAZY = {types.GeneratorType, map, filter, reversed, itertools.chain}
_CONT = {list, tuple, dict, XSet, XFrozenSet, XDict, XDefaultDict}


def sx_is(a, b):
    if type(a) is Choice or type(b) is Choice:
        return lift_bool(lambda x, y: x is y or (_immut(x) and type(x) is type(y) and x == y), a, b)
    if type(a) is SymBool and isinstance(b, bool):
        return a if b else sym_not(a)
    if type(b) is SymBool and isinstance(a, bool):
        return b if a else sym_not(b)
    return a is b


def _immut(x):
    return isinstance(x, (bool, int, str, bytes, type(None)))


def sx_isnot(a, b):
    return sym_not(sx_is(a, b))


def sx_in(x, c):
    r = sym_in(x, c)
    return r


def sx_notin(x, c):
    return sym_not(sym_in(x, c))


def sx_get(o, i):
    if type(o) in core.SYM_TYPES or type(i) in core.SYM_TYPES:
        if type(o) is Choice:
            return lift(lambda v, j: v[j], o, i)
        if isinstance(o, XDict):
            return o[i]
        if type(i) is Choice and isinstance(o, (dict, list, tuple, str)):
            return lift(lambda j: o[j], i)
    return o[i]


def sx_fmt(*parts):
    """parts: str or (value, conversion, spec)"""
    vals = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            if type(p[0]) in core.SYM_TYPES:
                sym = True
    if not sym:
        return "".join(p if type(p) is str else _fmt1(*p) for p in parts)
    if hasattr(core, "sym_concat") and any(
            type(p) is tuple and getattr(type(p[0]), "_sx_strlike_", False) for p in parts):
        return core.sym_concat([p if type(p) is str else p[0] for p in parts])
    slots = []
    shape = []
    for p in parts:
        if type(p) is tuple and type(p[0]) is Choice:
            shape.append((len(slots), p[1], p[2]))
            slots.append(p[0])
        elif type(p) is tuple:
            shape.append(_fmt1(conc(p[0]), p[1], p[2]))
        else:
            shape.append(p)
    return lift(lambda *vs: "".join(
        q if type(q) is str else _fmt1(vs[q[0]], q[1], q[2]) for q in shape), *slots)


def _fmt1(v, conv, spec):
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, conc(spec) if spec else "")


def sx_enter(name):
    c = core._CTX
    if c is not None:
        c.functions.add(name)


def sx_logged(thunk):
    if core._CTX is None:
        thunk()
    else:
        core._CTX.logged(thunk)


def sx_logiter(it):
    """the iterable of a loop that only logs: nothing to observe"""
    return () if type(it) in (XSet, XFrozenSet) and it.ext else it


def sx_conc(x):
    return conc(x)


def sx_cmpchain(left, *ops):
    r = True
    for op, right in ops:
        q = op(left, right)
        r = q if r is True else mkb(zand(zb(r), zb(q)))
        left = right
    return r


def sx_dict(*parts):
    d = XDict()
    for p in parts:
        if type(p) is tuple:
            d[p[0]] = p[1]
        else:
            d.update(p)
    return d


def sx_mod(a, b):
    if type(a) is str and contains_sym(b):
        if type(b) is tuple:
            vals, back = list(b), tuple
        elif isinstance(b, dict):
            ks = list(dict.keys(b))
            vals, back = [dict.__getitem__(b, k) for k in ks], lambda v: dict(zip(ks, v))
        else:
            vals, back = [b], lambda v: v[0] if type(v[0]) is not tuple else (v[0],)
        if all(type(v) is Choice or not contains_sym(v) for v in vals):
            # the concrete parts stay as they are
            return lift(lambda *vs: a % back(vs), *vals)
        return a % conc(b)
    return a % b


def sx_setd(*xs):
    return XSet(xs)


HELPERS = {
    "_sx_call_": call, "_sx_is_": sx_is, "_sx_isnot_": sx_isnot, "_sx_in_": sx_in,
    "_sx_notin_": sx_notin, "_sx_get_": sx_get, "_sx_fmt_": sx_fmt, "_sx_enter_": sx_enter,
    "_sx_not_": sym_not, "_sx_set_": sx_setd, "_sx_setc_": XSet, "_sx_dict_": sx_dict,
    "_sx_dictc_": XDict, "_sx_conc_": sx_conc, "_sx_chain_": sx_cmpchain,
    "_sx_logiter_": sx_logiter, "_sx_logged_": sx_logged, "_sx_mod_": sx_mod, "_sx_div_": symstr.div,
    "_sx_mergeable_": lambda t: type(t) is SymBool, "_sx_merge_": merge,
}
import operator as _o  # noqa: E402
HELPERS.update({
    "_sx_op_Eq_": _o.eq, "_sx_op_NotEq_": _o.ne, "_sx_op_Lt_": _o.lt, "_sx_op_LtE_": _o.le,
    "_sx_op_Gt_": _o.gt, "_sx_op_GtE_": _o.ge, "_sx_op_Is_": sx_is, "_sx_op_IsNot_": sx_isnot,
    "_sx_op_In_": sx_in, "_sx_op_NotIn_": sx_notin,
})

# --------------------------------------------------------------------------
# the transformation


def _n(name):
    return ast.Name(id=name, ctx=ast.Load())


def _c(name, *args):
    return ast.Call(func=_n(name), args=list(args), keywords=[])


def _is_log(st):
    if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
        return False
    f = st.value.func
    return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and \
        f.value.id in ("logger", "log", "logging", "_logger", "LOGGER") and \
        f.attr in _LOGM and not st.value.keywords


def _only_logs(st):
    if not _is_log(st):
        return False

    def simple(a):
        return isinstance(a, (ast.Constant, ast.Name)) or (
            isinstance(a, ast.Attribute) and simple(a.value)) or (
            isinstance(a, ast.Subscript) and simple(a.value) and simple(a.slice))

    return all(simple(a) for a in st.value.args)


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.bound = set()      # local names surely bound at this point
        self.tmp = 0

    # annotations are never evaluated (from __future__ import annotations) or
    # must stay literal
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def _func(self, node):
        self.scope.append(node.name)
        outer, self.bound = self.bound, {
            a.arg for a in [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs]}
        outside = {n for st in ast.walk(node) if isinstance(st, (ast.Global, ast.Nonlocal)) for n in st.names}
        deleted = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del)}
        name = ".".join([self.mod, *self.scope])
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        body = []
        for st in node.body:
            targets = st.targets if isinstance(st, ast.Assign) else \
                [st.target] if isinstance(st, ast.AnnAssign) and st.value is not None else []
            names = {t.id for t in targets if isinstance(t, ast.Name)} - outside - deleted
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
            self.bound |= names
        self.bound = outer
        at = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            at = 1
        body.insert(at, ast.Expr(_c("_sx_enter_", ast.Constant(name))))
        node.body = body
        self.scope.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node = self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in (
                "super", "locals", "globals", "vars", "dir", "eval", "exec", "TypeVar", "cast"):
            return self.generic_visit(node)
        node = self.generic_visit(node)
        return ast.Call(func=_n("_sx_call_"), args=[node.func, *node.args], keywords=node.keywords)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return _c("_sx_div_", node.left, node.right)
        if isinstance(node.op, ast.Mod):
            return _c("_sx_mod_", node.left, node.right)
        return node

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _c("_sx_not_", node.operand)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        special = (ast.Is, ast.IsNot, ast.In, ast.NotIn)
        if not any(isinstance(o, special) for o in node.ops):
            return node
        if len(node.ops) == 1:
            h = {ast.Is: "_sx_is_", ast.IsNot: "_sx_isnot_", ast.In: "_sx_in_", ast.NotIn: "_sx_notin_"}
            return _c(h[type(node.ops[0])], node.left, node.comparators[0])
        return _c("_sx_chain_", node.left, *[
            ast.Tuple([_n(f"_sx_op_{type(o).__name__}_"), c], ast.Load())
            for o, c in zip(node.ops, node.comparators)])

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return _c("_sx_set_", *node.elts)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            parts.append(v if k is None else ast.Tuple([k, v], ast.Load()))
        return _c("_sx_dict_", *parts)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return _c("_sx_setc_", ast.GeneratorExp(node.elt, node.generators))

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        return _c("_sx_dictc_", ast.GeneratorExp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(
                    [self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return _c("_sx_fmt_", *parts)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                return node
            return _c("_sx_get_", node.value, node.slice)
        return node

    def visit_If(self, node):
        """if C: x = const   ->   x = merge(C, const, x) when C is symbolic"""
        conv = None
        if not node.orelse:
            names = {}
            for st in node.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                        isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Constant):
                    names[st.targets[0].id] = st.value
                elif isinstance(st, ast.Pass) or _only_logs(st) or (
                        isinstance(st, ast.For) and not st.orelse and isinstance(st.target, ast.Name)
                        and all(_only_logs(b) for b in st.body)):
                    pass
                else:
                    names = None
                    break
            if names is not None and all(n in self.bound for n in names):
                conv = names
        node = self.generic_visit(node)
        if conv is None:
            return node
        self.tmp += 1
        t = f"_sx_t{self.tmp}_"
        return [
            ast.Assign([ast.Name(t, ast.Store())], node.test),
            ast.If(
                _c("_sx_mergeable_", _n(t)),
                [ast.Assign([ast.Name(n, ast.Store())], _c("_sx_merge_", _n(t), v, _n(n)))
                 for n, v in conv.items()] or [ast.Pass()],
                [ast.If(_n(t), node.body, [])]),
        ]

    def visit_For(self, node):
        logs = not node.orelse and isinstance(node.target, ast.Name) and all(_only_logs(b) for b in node.body)
        node = self.generic_visit(node)
        if logs:
            node.iter = _c("_sx_logiter_", node.iter)
        return node

    def visit_Expr(self, node):
        logs = _is_log(node) and not _only_logs(node) and not self.mod.endswith(_PRINTS) and not any(
            isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Starred))
            for n in ast.walk(node))
        node = self.generic_visit(node)
        if logs:
            call = node.value
            node.value = _c("_sx_logged_", ast.Lambda(
                ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                call))
        return node

    def visit_Match(self, node):
        subject = _c("_sx_conc_", self.visit(node.subject))
        for case in node.cases:
            if case.guard is not None:
                case.guard = self.visit(case.guard)
            body = []
            for st in case.body:
                r = self.visit(st)
                body.extend(r if isinstance(r, list) else [r])
            case.body = body
        node.subject = subject
        return node


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name != PREFIX and not name.startswith(PREFIX + "."):
            return None
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn, pkg = os.path.join(base, "__init__.py"), [base]
        elif os.path.exists(base + ".py"):
            fn, pkg = base + ".py", None
        else:
            return None
        spec = importlib.machinery.ModuleSpec(name, Loader(fn), origin=fn, is_package=pkg is not None)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = pkg
        return spec


LOADED = {}


class Loader(importlib.abc.Loader):
    def __init__(self, fn):
        self.fn = fn

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.fn, encoding="utf-8") as f:
            src = f.read()
        module.__file__ = self.fn
        tree = ast.parse(src, self.fn)
        tree = Tr(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.fn, "exec", dont_inherit=True)
        module.__dict__.update(HELPERS)
        LOADED[module.__name__] = module
        exec(code, module.__dict__)
        _fresh.append(Snapshot([module]))


def install(root):
    sys.meta_path.insert(0, Finder(root))


# --------------------------------------------------------------------------
# module state between paths

_MUT = (list, dict, set, bytearray, collections.deque, XSet)
_snap = None
_fresh = []         # state of modules as imported, until the first restore


def _targets(mods):
    """(container, key) slots to restore and the caches to clear"""
    slots, caches, conts = [], [], []
    seen = set()

    def visit(o):
        if isinstance(o, _MUT) and id(o) not in seen:
            seen.add(id(o))
            conts.append(o)
            vals = list(o.values()) if isinstance(o, dict) else list(o) if isinstance(o, (list,)) else []
            for v in vals:
                if isinstance(v, _MUT):
                    visit(v)

    def func(f):
        w = f
        while w is not None:
            if hasattr(w, "cache_clear"):
                caches.append(w)
            if isinstance(w, types.FunctionType):
                for d in (w.__defaults__ or ()):
                    visit(d)
                for d in (w.__kwdefaults__ or {}).values():
                    visit(d)
                for cell in (w.__closure__ or ()):
                    try:
                        visit(cell.cell_contents)
                    except ValueError:
                        pass
            w = getattr(w, "__wrapped__", None)

    for m in mods:
        slots.append(m.__dict__)
        for n, v in list(m.__dict__.items()):
            if n.startswith("__") or n in HELPERS:
                continue
            if isinstance(v, type) and v.__module__.startswith(PREFIX):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                for nn, vv in list(vars(v).items()):
                    if isinstance(vv, (staticmethod, classmethod)):
                        vv = vv.__func__
                    if isinstance(vv, property):
                        continue
                    if isinstance(vv, types.FunctionType) or hasattr(vv, "cache_clear"):
                        func(vv)
                    elif not nn.startswith("__") and not nn.startswith("_member") and \
                            not nn.startswith("_value2") and not nn.startswith("_unhash"):
                        visit(vv)
                slots.append(v)
            elif isinstance(v, types.FunctionType) or hasattr(v, "cache_clear"):
                func(v)
            elif isinstance(v, types.ModuleType):
                continue
            else:
                visit(v)
                d = getattr(v, "__dict__", None)
                if type(v).__module__.startswith(PREFIX) and isinstance(d, dict):
                    visit(d)
    return slots, caches, conts


class Snapshot:
    def __init__(self, mods):
        self.names = sorted(LOADED)
        slots, self.caches, conts = _targets(mods)
        self.globals = [(s, dict(s)) for s in slots if isinstance(s, dict)]
        self.classes = [(s, {k: v for k, v in vars(s).items() if not k.startswith("__")})
                        for s in slots if isinstance(s, type)]
        self.conts = [(c, _copy(c)) for c in conts]

    def restore(self):
        for s, d in self.globals:
            if len(s) != len(d):
                for k in list(s):
                    if k not in d and not isinstance(s[k], types.ModuleType) and k != "__builtins__":
                        # (a lazily imported submodule stays)
                        del s[k]
            for k, v in d.items():
                if s.get(k, _NO) is not v:
                    s[k] = v
        for cls, d in self.classes:
            cur = vars(cls)
            for k, v in d.items():
                if cur.get(k, _NO) is not v:
                    try:
                        setattr(cls, k, v)
                    except (AttributeError, TypeError):
                        pass
            for k in [k for k in cur if not k.startswith("__") and k not in d]:
                try:
                    delattr(cls, k)
                except (AttributeError, TypeError):
                    pass
        for c, v in self.conts:
            _refill(c, v)
        for c in self.caches:
            c.cache_clear()


def _copy(c):
    if isinstance(c, XSet):
        return c.copy()
    if isinstance(c, dict):
        return list(dict.items(c))
    return list(c)


def _refill(c, v):
    if isinstance(c, XSet):
        c._replace(v)
    elif isinstance(c, dict):
        if list(dict.items(c)) != v:
            dict.clear(c)
            for k, x in v:
                dict.__setitem__(c, k, x)
    elif isinstance(c, set):
        if c != set(v):
            c.clear()
            c.update(v)
    else:
        if len(c) != len(v) or any(a is not b for a, b in zip(c, v)):
            c[:] = v if isinstance(c, (list, bytearray)) else c[:]


def restore_state():
    global _snap
    if _snap is None or _snap.names != sorted(LOADED):
        if _snap is not None:
            _snap.restore()
        for x in _fresh:
            x.restore()
        _fresh.clear()
        _snap = Snapshot(list(LOADED.values()))
        for c in _snap.caches:
            c.cache_clear()
        return
    _snap.restore()
