"""Running `auditwheel repair` on small wheels."""
from __future__ import annotations

import argparse
import hashlib
import os
import zipfile
from pathlib import Path

from symx.world import elf_info, elf_state


class Refused(Exception):
    """parser.error"""


class Parser:
    _sx_ok_ = True

    def error(self, msg):
        raise Refused(str(msg))


def repair(wheels, out, plat="auto", exclude=(), ldpaths="", only_plat=False, strip=False, update_tags=True, lib_sdir=".libs",
           level=0, isa_off=False, pure=False, patcher="patchelf"):
    """main_repair.execute; exit status or the exception"""
    from auditwheel import main_repair
    args = argparse.Namespace(
        LIB_SDIR=lib_sdir, ONLY_PLAT=only_plat, PLAT=plat, STRIP=strip, UPDATE_TAGS=update_tags, WHEEL_DIR=Path(out),
        WHEEL_FILE=[Path(w) for w in (wheels if isinstance(wheels, list) else [wheels])], EXCLUDE=list(exclude), LDPATHS=None if ldpaths is None else str(ldpaths),
        DISABLE_ISA_EXT_CHECK=isa_off, ZIP_COMPRESSION_LEVEL=level, ALLOW_PURE_PY_WHEEL=pure, PATCHER=patcher, cmd="repair", prog="auditwheel", verbose=0)
    return main_repair.execute(args, Parser())


def outputs(out):
    return sorted(os.listdir(out)) if os.path.isdir(out) else []


def unpack(path, dest):
    """{name in wheel: path of the unpacked file}"""
    os.makedirs(dest)
    with zipfile.ZipFile(path) as z:
        z.extractall(dest)
        names = [n for n in z.namelist() if not n.endswith("/")]
    return {n: os.path.join(dest, n) for n in names}


def shorthash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()[:8]


def grafted_name(realpath):
    """the name a library is to have in the wheel"""
    base, dot, rest = os.path.basename(realpath).partition(".")
    h = shorthash(realpath)
    return os.path.basename(realpath) if base.endswith("-" + h) else f"{base}-{h}{dot}{rest}"


def plat_tags(fn):
    return fn[: -len(".whl")].split("-")[-1].split(".")


def leads_to(runpath, fn, root, target):
    """one of the entries of the run path of file fn of the wheel unpacked at root is the directory target"""
    if runpath is None:
        return False
    origin = os.path.dirname(os.path.join(root, fn))
    return any(os.path.normpath(e.replace("${ORIGIN}", origin).replace("$ORIGIN", origin)) == os.path.join(root, target) for e in runpath.split(":"))


__all__ = ["Refused", "elf_info", "elf_state", "grafted_name", "leads_to", "outputs", "plat_tags", "repair", "shorthash", "unpack"]
