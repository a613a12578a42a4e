"""Symbolic permission bits of files and of zip members (symbolic mode only).

A file's symbolic mode lives in MODES; chmod, stat, copy2 and ZipInfo.from_file,
as called by the code under test, see it.  A zip member's symbolic attributes
live in ZIPATTR, keyed by archive and member."""
from __future__ import annotations

import os
import pathlib
import shutil
import stat as _stat
import zipfile

from . import core

MODES = {}
ZIPATTR = {}


def reset():
    MODES.clear()
    ZIPATTR.clear()


def _k(p):
    return os.path.realpath(os.fspath(p))


def _sym(x):
    return type(x) in core.SYM_TYPES


class Stat:
    def __init__(self, st, mode):
        self._st = st
        self.st_mode = mode

    def __getattr__(self, n):
        return getattr(self._st, n)

    def __getitem__(self, i):
        return self.st_mode if i == 0 else self._st[i]


def wrap_stat(path, st):
    m = MODES.get(_k(path)) if MODES else None
    if m is None:
        return st
    return Stat(st, m | _stat.S_IFMT(st.st_mode))


def set_mode(path, mode):
    if _sym(mode):
        MODES[_k(path)] = mode & 0o7777
    else:
        MODES.pop(_k(path), None)


def mode_of(path):
    """the permission bits a file has now"""
    m = MODES.get(_k(path))
    if m is not None:
        return m
    return os.stat(path).st_mode & 0o7777


_real = {}


def install():
    _real["chmod"] = os.chmod

    def chmod(path, mode, *a, **k):
        if isinstance(path, int):
            return _real["chmod"](path, core.concretize(mode), *a, **k)
        set_mode(path, mode)
        if not _sym(mode):
            _real["chmod"](path, mode, *a, **k)
        return None

    chmod._sx_ok_ = True
    os.chmod = chmod

    def pchmod(self, mode, *, follow_symlinks=True):
        os.chmod(self, mode)

    pchmod._sx_ok_ = True
    pathlib.Path.chmod = pchmod

    for name in ("copy2", "copy", "copymode", "copystat"):
        orig = getattr(shutil, name)

        def f(src, dst, *a, _o=orig, **k):
            src, dst = core.concretize(src), core.concretize(dst)
            r = _o(src, dst, *a, **k)
            d = r if isinstance(r, (str, os.PathLike)) else dst
            if MODES:
                if _k(src) in MODES:
                    MODES[_k(d)] = MODES[_k(src)]
                else:
                    MODES.pop(_k(d), None)
            return r

        f._sx_ok_ = True
        setattr(shutil, name, f)

    for name in ("rename", "replace"):
        orig = getattr(os, name)

        def g(src, dst, *a, _o=orig, **k):
            ks = _k(src) if MODES else None
            zs = _k(src) if ZIPATTR else None
            r = _o(src, dst, *a, **k)
            if zs is not None:
                for key in [q for q in ZIPATTR if q[0] == _k(dst)]:
                    del ZIPATTR[key]
                for key in [q for q in ZIPATTR if q[0] == zs]:
                    ZIPATTR[_k(dst), key[1]] = ZIPATTR.pop(key)
            if ks is not None:
                m = MODES.pop(ks, None)
                if m is not None:
                    MODES[_k(dst)] = m
                else:
                    MODES.pop(_k(dst), None)
            return r

        setattr(os, name, g)

    real_from = zipfile.ZipInfo.from_file.__func__

    def from_file(cls, filename, arcname=None, **k):
        z = real_from(cls, filename, arcname, **k)
        m = MODES.get(_k(filename)) if MODES else None
        if m is not None:
            z.external_attr = ((m | _stat.S_IFREG) & 0xFFFF) << 16
        return z

    from_file._sx_ok_ = True
    zipfile.ZipInfo.from_file = classmethod(from_file)

    real_writestr = zipfile.ZipFile.writestr

    def writestr(self, zinfo, data, *a, **k):
        if isinstance(zinfo, zipfile.ZipInfo) and _sym(zinfo.external_attr):
            ZIPATTR[(_k(self.filename), zinfo.filename)] = zinfo.external_attr
            zinfo.external_attr = 0
        return real_writestr(self, zinfo, data, *a, **k)

    zipfile.ZipFile.writestr = writestr
    real_get = zipfile.ZipFile._RealGetContents

    def getc(self):
        real_get(self)
        if ZIPATTR and self.filename:
            key = _k(self.filename)
            for z in self.filelist:
                v = ZIPATTR.get((key, z.filename))
                if v is not None:
                    z.external_attr = v

    zipfile.ZipFile._RealGetContents = getc
