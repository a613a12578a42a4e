"""Shared by the harnesses.  Nothing here calls the code under test except
through the entry points its own tests use."""
from __future__ import annotations

import functools
import json
import os

from symx.engine_paths import REPO

POLICY_DIR = os.path.join(REPO, "src", "auditwheel", "policy")

GLIBC_ARCHES = ["x86_64", "i686", "aarch64", "armv7l", "ppc64le", "s390x", "riscv64", "loongarch64", "ppc64"]
MUSL_ARCHES = ["x86_64", "i686", "aarch64", "armv7l", "ppc64le", "s390x", "riscv64", "loongarch64"]

MACHINE = {
    "x86_64": ("EM_X86_64", 64, True, 0), "i686": ("EM_386", 32, True, 0),
    "aarch64": ("EM_AARCH64", 64, True, 0), "armv7l": ("EM_ARM", 32, True, 0x5000400),
    "ppc64le": ("EM_PPC64", 64, True, 2), "ppc64": ("EM_PPC64", 64, False, 1),
    "s390x": ("EM_S390", 64, False, 0), "riscv64": ("EM_RISCV", 64, True, 5),
    "loongarch64": ("EM_LOONGARCH", 64, True, 0x43),
}


@functools.lru_cache(None)
def policy_json(libc):
    """The policy data, read here independently of the code under test."""
    n = {"glibc": "manylinux", "musl": "musllinux", "android": "android"}[libc]
    with open(os.path.join(POLICY_DIR, f"{n}-policy.json")) as f:
        return json.load(f)


@functools.lru_cache(None)
def oracle_policies(libc, arch):
    """[(tag, priority, {prefix: set(full symbol)}, whitelist, blacklist, aliases)] by
    ascending priority, for one architecture."""
    out = []
    for p in policy_json(libc):
        if p["name"] == "linux":
            out.append((f"linux_{arch}", 0, {}, None, {}, ()))
        elif arch in p["symbol_versions"]:
            sv = {k: {f"{k}_{v}" for v in vs} for k, vs in p["symbol_versions"][arch].items()}
            wl = set(p["lib_whitelist"])
            if libc == "musl" and "libc.so" in wl:
                wl.discard("libc.so")
                wl.add({"x86_64": "libc.musl-x86_64.so.1", "i686": "libc.musl-x86.so.1",
                        "armv7l": "libc.musl-armv7.so.1"}.get(arch, f"libc.musl-{arch}.so.1"))
            out.append((f"{p['name']}_{arch}", p["priority"], sv, wl,
                        {k: set(v) for k, v in p["blacklist"].items()},
                        tuple(f"{a}_{arch}" for a in p["aliases"])))
    out.sort(key=lambda t: t[1])
    return out


def wheel_policies(sx, libc, arch, wheel_fn=None, musl=None):
    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    from auditwheel.policy import WheelPolicies
    return sx.memo(("wp", libc, arch, str(wheel_fn), musl), lambda: WheelPolicies(
        libc={"glibc": Libc.GLIBC, "musl": Libc.MUSL, "android": Libc.ANDROID}[libc],
        arch=Architecture(arch), wheel_fn=wheel_fn, musl_policy=musl))


def symbol_universe(libc, arch):
    """Every version any policy lists for the arch, one too new per prefix, and
    names no policy speaks about."""
    seen = {}
    for _, _, sv, _, _, _ in oracle_policies(libc, arch):
        for pre, vs in sv.items():
            seen.setdefault(pre, set()).update(vs)
    u = []
    for pre in sorted(seen):
        u += sorted(seen[pre])
        u += [f"{pre}_99.99", f"{pre}_PRIVATE", pre]
    u += ["OPENSSL_1_1_1", "GLIBCX_2.5", "LIBFOO_1.0", "NOUNDERSCORE", "_LEADING"]
    return u


def highest_allowed(sx, pols, syms):
    """Tag of the highest-priority policy that lists every symbol of syms whose
    prefix it restricts."""
    best = pols[0][0]
    for tag, _, sv, _, _, _ in pols[1:]:
        def ok(s, sv=sv):
            pre = s.partition("_")[0]
            return pre not in sv or s in sv[pre]
        cond = sx.And(*[sx.lift(ok, s) for s in syms])
        best = sx.If(cond, tag, best)
    return best


_REAL = {}


def set_listing(order):
    """From now on (for this run) directories list their entries in this order:
    "sorted", "reversed", "rotated".  What the file system really does is unspecified."""
    from symx.world import HOOKS
    HOOKS["listing"] = order
    if _REAL:
        return
    _REAL["scandir"], _REAL["listdir"] = os.scandir, os.listdir

    def arrange(items, key):
        o = HOOKS.get("listing")
        if o is None:
            return items
        items = sorted(items, key=key)
        if o == "reversed":
            items.reverse()
        elif o == "rotated":
            k = (len(items) + 1) // 2
            items = items[k:] + items[:k]
        return items

    class Scan:
        def __init__(self, path):
            with _REAL["scandir"](path) as it:
                self.it = iter(arrange(list(it), lambda e: e.name))

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    os.scandir = lambda path=".": Scan(path)
    os.listdir = lambda path=".": arrange(_REAL["listdir"](path), str)
