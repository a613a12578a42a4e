"""Strings made of a few independent symbolic pieces (a search path, say):
kept as a sequence of literal and Choice parts so that splitting them again
does not multiply the alternatives.  Exact; anything else is flattened into
one Choice or, if that would be too large, forked over."""
from __future__ import annotations

from . import core
from .core import Choice, LiftedMethod, concretize, lift, lift_bool, mkb, sym_not, zb, zor

LIMIT = 512


def concat(parts):
    out = []
    for p in parts:
        if type(p) is SymStr:
            out.extend(p.parts)
        elif p != "" or type(p) is Choice:
            out.append(p)
    flat = []
    for p in out:
        if type(p) is str and flat and type(flat[-1]) is str:
            flat[-1] += p
        else:
            flat.append(p)
    if not flat:
        return ""
    if len(flat) == 1:
        return flat[0]
    return SymStr(flat)


class SymStr:
    _symx_ = True
    _sx_strlike_ = True
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def size(self):
        n = 1
        for p in self.parts:
            if type(p) is Choice:
                n *= len(p.alts)
        return n

    def flat(self):
        """the same value as one Choice, or concrete"""
        if self.size() > LIMIT:
            return self._concretize_()
        return lift(lambda *ps: "".join(ps), *self.parts)

    def _concretize_(self):
        return "".join(concretize(p) for p in self.parts)

    def split(self, sep=None, maxsplit=-1):
        if type(sep) is str and maxsplit == -1:
            rows = [[]]
            for p in self.parts:
                if type(p) is str:
                    pieces = p.split(sep)
                    n = len(pieces)
                else:
                    ns = {v.count(sep) for _, v in p.guards()}
                    if len(ns) != 1:
                        return self.flat().split(sep)
                    n = ns.pop() + 1
                    pieces = [p] if n == 1 else [lift(lambda v, i=i: v.split(sep)[i], p) for i in range(n)]
                rows[-1].append(pieces[0])
                rows.extend([q] for q in pieces[1:])
            # a separator must not arise across a border: one character only
            if len(sep) == 1:
                return [concat(r) for r in rows]
        return self.flat().split(sep, maxsplit)

    def splitlines(self, keepends=False):
        if keepends:
            return self.flat().splitlines(True)
        out = self.split("\n")
        return out[:-1] if type(out[-1]) is str and out[-1] == "" else out

    def strip(self, chars=None):
        # a literal end that is only white space goes without multiplying
        ps = list(self.parts)
        if chars is None:
            while ps and type(ps[-1]) is str and ps[-1].strip() == "":
                ps.pop()
            while ps and type(ps[0]) is str and ps[0].strip() == "":
                ps.pop(0)
            if len(ps) < len(self.parts):
                r = concat(ps)
                return r.strip() if type(r) is not Choice else lift(str.strip, r)
        f = self.flat()
        return lift(lambda v: v.strip(chars), f)

    def __add__(self, o):
        return concat([self, o])

    def __radd__(self, o):
        return concat([o, self])

    def __eq__(self, o):
        if type(o) in (SymStr, Choice):
            a = self.flat() if self.size() <= LIMIT else None
            b = o if type(o) is Choice else o.flat() if o.size() <= LIMIT else None
            if a is not None and b is not None:
                return lift_bool(lambda x, y: x == y, a, b)
            return self._concretize_() == concretize(o)
        if isinstance(o, str):
            return self.flat() == o
        return False

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return hash(self._concretize_())

    def __bool__(self):
        return bool(mkb(zor(*[zb(p) for p in self.parts])))

    def _truth(self):
        return zor(*[zb(p) for p in self.parts])

    def __len__(self):
        return len(self._concretize_())

    def __iter__(self):
        return iter(self._concretize_())

    def __contains__(self, x):
        return x in self._concretize_()

    def __getitem__(self, i):
        f = self.flat()
        return f[i]

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        f = self.flat()
        return LiftedMethod(f, n) if type(f) is Choice else getattr(f, n)

    def __repr__(self):
        return repr(self._concretize_())

    def __str__(self):
        return self._concretize_()

    def __format__(self, spec):
        return format(self._concretize_(), spec)

    def __fspath__(self):
        return self._concretize_()

    def __deepcopy__(self, memo):
        return self

    def _sx_eval_(self, model):
        from .api import ev
        return "".join(ev(p, model) for p in self.parts)

    @classmethod
    def _sx_isinstance_(cls, x, t):
        return t in (str, object)


def str_method(recv, name, a, k):
    if name == "join" and len(a) == 1 and not k and type(a[0]) in (list, tuple):
        items = list(a[0])
        parts = []
        for i, x in enumerate(items):
            if type(x) is Choice and not all(isinstance(v, str) for _, v in x.guards()):
                x = concretize(x)
            if i:
                parts.append(recv)
            parts.append(x)
        return concat(parts)
    if name == "format":
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(recv):
                parts.append(lit)
                if field is None:
                    continue
                if spec or conv:
                    return NotImplemented
                if field == "" or field.isdigit():
                    v = a[int(field) if field else auto]
                    auto += 1
                else:
                    v = k[field]
                if type(v) is not SymStr:
                    v = lift(str, v) if type(v) is Choice else str(concretize(v))
                parts.append(v)
        except (KeyError, ValueError, IndexError):
            return NotImplemented
        return concat(parts)
    for x in a:
        if type(x) is SymStr:
            return getattr(recv, name)(*[x.flat() if type(x) is SymStr else x for x in a], **k) \
                if all(type(y) is not Choice for y in a) and type(x.flat()) is str \
                else core.lift(lambda *aa: getattr(recv, name)(*aa, **k), *[
                    y.flat() if type(y) is SymStr else y for y in a])
    return NotImplemented


def div(a, b):
    import pathlib
    if isinstance(a, pathlib.PurePath) and type(b) in (Choice, SymStr):
        if type(b) is SymStr:
            b = b.flat()
        return lift(lambda p, q: p / q, a, b)
    return a / b


# -- e-mail style headers: a symbolic header value is written to a file as a
# token and is symbolic again when the file is parsed

TOKENS = {}


def _patch_email():
    import email.feedparser
    import email.generator
    import email.message
    import email.parser
    import re

    add = email.message.Message.add_header

    def add_header(self, _name, _value, **params):
        if not params and type(_value) in core.SYM_TYPES:
            self[_name] = _value
        else:
            add(self, _name, concretize(_value), **params)

    add_header._sx_ok_ = True
    email.message.Message.add_header = add_header
    pat = re.compile("SYMXTOKEN(\\d+)X")

    def flat(orig):
        def flatten(self, msg, *a, **k):
            old = msg._headers
            try:
                new = []
                for n, v in old:
                    if type(v) in core.SYM_TYPES:
                        t = f"SYMXTOKEN{len(TOKENS)}X"
                        TOKENS[t] = v
                        v = t
                    new.append((n, v))
                msg._headers = new
                return orig(self, msg, *a, **k)
            finally:
                msg._headers = old
        return flatten

    email.generator.Generator.flatten = flat(email.generator.Generator.flatten)
    close = email.feedparser.FeedParser.close

    def parsed(self):
        m = close(self)
        m._headers = [(n, concat([TOKENS[q] if q in TOKENS else q for q in re.split("(SYMXTOKEN\\d+X)", v)])
                       if isinstance(v, str) and pat.search(v) else v) for n, v in m._headers]
        return m

    email.feedparser.FeedParser.close = parsed


class SymTag:
    """packaging.tags.Tag with a symbolic platform"""

    def __init__(self, interpreter, abi, platform):
        self.interpreter, self.abi, self.platform = interpreter, abi, platform

    def __str__(self):
        return f"{self.interpreter}-{self.abi}-{concretize(self.platform)}"


def _patch_packaging():
    import packaging.utils
    real = packaging.utils.parse_wheel_filename

    def parse_wheel_filename(filename, **k):
        if type(filename) is Choice:
            return lift(lambda f: real(f, **k), filename)
        if type(filename) is not SymStr:
            return real(filename, **k)
        # the real parser sees a placeholder for each symbolic platform tag
        subst, parts, dots = {}, [], "-."
        for i, p in enumerate(filename.parts):
            if type(p) is str:
                parts.append(p)
                continue
            before = "".join(parts)
            after = next((q for q in filename.parts[i + 1:] if type(q) is str), "")
            if before[-1:] not in ("-", ".") or "-" in "".join(q for q in filename.parts[i + 1:] if type(q) is str) \
                    or after[:1] != "." or any("-" in v or "." in v or v == "" for _, v in p.guards()):
                return real(filename._concretize_(), **k)
            t = f"symxtag{i}"
            subst[t] = lift(str.lower, p)
            parts.append(t)
        name, ver, build, tags = real("".join(parts), **k)
        tags = sorted(tags, key=str)
        return name, ver, build, tuple(
            SymTag(t.interpreter, t.abi, subst[t.platform]) if t.platform in subst else t for t in tags)

    parse_wheel_filename._sx_ok_ = True
    packaging.utils.parse_wheel_filename = parse_wheel_filename


def install():
    core.SYM_TYPES.add(SymStr)
    core.sym_concat = concat
    core.str_method = str_method
    _patch_email()
    _patch_packaging()


install()
