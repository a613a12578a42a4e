"""Small wheels and library directories for the analysis and repair harnesses."""
from __future__ import annotations

import base64
import hashlib
import os
import zipfile
from pathlib import Path

from symx.world import Elf, G, Note, Sym, elf_content, elf_info, write_elf  # noqa: F401

from harness.common import MACHINE

NAME, VER = "pkg", "1.0"


def wheel_name(plat="linux_x86_64", pyver="cp312", abi="cp312", name=NAME, ver=VER):
    return f"{name}-{ver}-{pyver}-{abi}-{plat}.whl"


def wheel_meta(tags, purelib="false"):
    return f"Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: {purelib}\n" + "".join(
        f"Tag: {t}\n" for t in tags) + "\n"


def make_wheel(dirname, fn, files, purelib="false", modes=None, extra=None, name=NAME, ver=VER, signed=False):
    """files: {path in wheel: Elf spec | bytes | str}"""
    os.makedirs(dirname, exist_ok=True)
    path = os.path.join(dirname, fn)
    parts = fn[: -len(".whl")].split("-")
    tags = [f"{py}-{ab}-{pl}" for py in parts[-3].split(".") for ab in parts[-2].split(".")
            for pl in parts[-1].split(".")]
    di = f"{name}-{ver}.dist-info"
    out = {}
    for p, c in files.items():
        if isinstance(c, Elf):
            c = elf_content(c)
        out[p] = c.encode() if isinstance(c, str) else c
    out[f"{di}/WHEEL"] = wheel_meta(tags, purelib).encode()
    out[f"{di}/METADATA"] = f"Metadata-Version: 2.1\nName: {name}\nVersion: {ver}\n".encode()
    if signed:
        out[f"{di}/RECORD.jws"] = b"sig"
    rec = ""
    for p, c in out.items():
        h = base64.urlsafe_b64encode(hashlib.sha256(c).digest()).rstrip(b"=").decode()
        q = '"' + p.replace('"', '""') + '"' if '"' in p or "," in p else p
        rec += f"{q},sha256={h},{len(c)}\n"
    rec += f"{di}/RECORD,,\n"
    out[f"{di}/RECORD"] = rec.encode()
    with zipfile.ZipFile(path, "w") as z:
        for p, c in out.items():
            zi = zipfile.ZipInfo(p, (2020, 1, 1, 0, 0, 0))
            zi.external_attr = ((modes or {}).get(p, 0o100755 if p.endswith(".so") else 0o100644)) << 16
            z.writestr(zi, c)
    return Path(path)


def elf(arch="x86_64", **k):
    m = MACHINE[arch]
    d = dict(machine=m[0], elfclass=m[1], little=m[2], flags=m[3])
    d.update(k)
    return Elf(**d)


def pyinit(mod):
    return Sym(f"PyInit_{mod}", shndx="1")


def analyze(wheel, libc="glibc", arch="x86_64", exclude=(), isa_off=False, graft=True, base=None, ldpaths=""):
    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    from auditwheel.wheel_abi import analyze_wheel_abi
    return analyze_wheel_abi(
        None if libc is None else {"glibc": Libc.GLIBC, "musl": Libc.MUSL, "android": Libc.ANDROID}[libc],
        None if arch is None else Architecture(arch), wheel, frozenset(exclude),
        disable_isa_ext_check=isa_off, allow_graft=graft, requested_policy_base_name=base,
        args_ldpaths=None if ldpaths is None else str(ldpaths))


def highest(sx, pols, ok):
    """tag of the highest-priority policy for which ok(policy) holds, linux if none"""
    best = pols[0][0]
    for p in pols[1:]:
        best = sx.If(ok(p), p[0], best)
    return best


def priority(pols):
    return {p[0]: p[1] for p in pols}


def lowest_of(sx, pols, *tags):
    """the tag of lowest priority"""
    rank = {p[0]: i for i, p in enumerate(pols)}
    best = tags[0]
    for t in tags[1:]:
        best = sx.lift(lambda a, b: a if rank[a] <= rank[b] else b, best, t)
    return best
