"""Failed repairs leave nothing behind."""
import gc
import io
import os
import shutil
import tempfile
import zipfile

from harness.repairworld import outputs, repair
from harness.wheelworld import Sym, elf, make_wheel, wheel_name, write_elf
from symx import world
from symx.world import HOOKS

BOUNDS = {
    "quick": "one failing operation, any of the first 60 of each kind (open for reading or writing, making a directory, renaming, permissions, copying, "
             "unpacking a member, packing a member, an external program) during a repair with grafting, a script shim and stripping; failing with an I/O error or an "
             "interrupt; output directory empty, holding a wheel of the name the output gets, or being that of the input; a missing library; renamed or kept tags",
    "thorough": "two failing operations",
}
ASSUMPTIONS = ["removing files and changing the directory do not fail", "a program that fails does so without harm (stand-in)"]
LABELS = {"fault": ["no wheel is written", "input unchanged", "directory restored", "temporary files removed", "the wheel is written"],
          "missing": ["no wheel is written", "input unchanged", "directory restored", "temporary files removed"]}
SAMPLE_P = 0.2

KINDS = ["read", "write", "mkdir", "rename", "chmod", "copy", "extract", "pack", "tool"]
LIMIT = 60


def jobs(tier):
    js = [("fault", [where, exc, n]) for where in ("empty", "same", "inplace") for exc in ("os", "int") for n in [1 if tier == "quick" else 2]]
    return js + [("missing", [w]) for w in ("empty", "same", "inplace")]


class Faults:
    """The operation number `at` of kind `kind` on a file below base fails"""

    def __init__(self, sx, base, plan, exc):
        self.sx, self.base, self.plan, self.exc = sx, base, plan, exc
        self.count = dict.fromkeys(KINDS, 0)
        self.armed = False
        self.hit = False

    def op(self, kind, path):
        if not self.armed or not os.path.abspath(os.fspath(path)).startswith(self.base + "/"):
            return
        n = self.count[kind]
        self.count[kind] += 1
        if n >= LIMIT:
            return
        for k, at in self.plan:
            # which kind is decided first, then which occurrence
            if self.sx.conc(self.sx.eq(k, kind)) and self.sx.conc(self.sx.eq(at, n)):
                self.hit = True
                if self.exc == "int":
                    raise KeyboardInterrupt
                raise OSError(28, "No space left on device")

    def install(self):
        saved = []

        def wrap(obj, name, kind, arg=0):
            orig = getattr(obj, name)

            def f(*a, **k):
                p = a[arg] if len(a) > arg else None
                if isinstance(p, (str, os.PathLike)):
                    self.op(kind, p)
                return orig(*a, **k)

            f._sx_ok_ = True
            saved.append((obj, name, orig))
            setattr(obj, name, f)

        ropen = io.open

        def op(file, mode="r", *a, **k):
            if isinstance(file, (str, os.PathLike)):
                self.op("read" if "r" in mode and "+" not in mode else "write", file)
            return ropen(file, mode, *a, **k)

        import builtins
        saved.append((io, "open", io.open))
        saved.append((builtins, "open", builtins.open))
        io.open = builtins.open = op
        wrap(os, "mkdir", "mkdir")
        wrap(os, "rename", "rename")
        wrap(os, "replace", "rename")
        wrap(os, "chmod", "chmod")
        wrap(shutil, "copyfile", "copy")
        for name, kind in (("_extract_member", "extract"), ("writestr", "pack")):
            orig = getattr(zipfile.ZipFile, name)

            def z(zf, *a, _o=orig, _k=kind, **k):
                self.op(_k, zf.filename)
                was, self.armed = self.armed, False
                try:
                    return _o(zf, *a, **k)
                finally:
                    self.armed = was

            z._sx_ok_ = True
            saved.append((zipfile.ZipFile, name, orig))
            setattr(zipfile.ZipFile, name, z)
        return saved


def undo(saved):
    for obj, name, orig in reversed(saved):
        setattr(obj, name, orig)


def content(d):
    out = {}
    for n in outputs(d):
        with open(os.path.join(d, n), "rb") as f:
            out[n] = f.read()
    return out


def run(sx, name, params):
    base = os.path.realpath(sx.scratch)
    where = params[0]
    ext, tmp, ind = base + "/ext", base + "/tmp", base + "/in"
    out = ind if where == "inplace" else base + "/out"
    os.makedirs(tmp)
    missing = name == "missing"
    write_elf(f"{ext}/liba.so.1", elf(soname="liba.so.1", needed=["libb.so.1"] if missing else []), mode=0o555)
    whl = make_wheel(ind, wheel_name(), {
        "pkg/m.so": elf(needed=["libc.so.6", "liba.so.1"], symbols=[Sym("PyInit_m", shndx="1")]),
        "pkg-1.0.data/scripts/prog": elf(needed=["libc.so.6", "liba.so.1"], salt="prog")}, modes={"pkg-1.0.data/scripts/prog": 0o100755})
    target = {True: "pkg-1.0-cp312-cp312-manylinux1_x86_64.manylinux_2_5_x86_64.whl", False: whl.name}
    tags = sx.conc(sx.bool("tags")) if missing else where != "inplace"
    if where == "same":
        os.makedirs(out)
        for n in target.values():
            with open(f"{out}/{n}", "wb") as f:
                f.write(b"an older wheel")
    before, was_in = content(out), content(ind)
    cwd = os.getcwd()
    n = 0 if missing else params[2]
    plan = [(sx.choice(f"kind{i}", KINDS), sx.int(f"at{i}", 0, LIMIT)) for i in range(n)]
    fl = Faults(sx, base, plan, "os" if missing else params[1])

    def tool(argv):
        try:
            fl.op("tool", base + "/x")
        except OSError:
            return 1, b"", b"failed\n"
        was, fl.armed = fl.armed, False
        del HOOKS["tool"]
        try:
            return world.run_tool(argv)
        finally:
            HOOKS["tool"] = tool
            fl.armed = was

    HOOKS["tool"] = tool
    old_tmp, tempfile.tempdir = tempfile.tempdir, tmp
    saved = fl.install()
    err = None
    try:
        fl.armed = True
        repair(whl, out, "auto", ldpaths=ext, strip=True, update_tags=tags)
    except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
        if type(e).__module__.startswith("symx"):
            raise
        err = type(e).__name__
    finally:
        fl.armed = False
        undo(saved)
        tempfile.tempdir = old_tmp
    try:
        now = os.getcwd()
    except OSError:
        now = "gone"
    os.chdir(cwd)
    gc.collect()
    left = sorted(os.listdir(tmp))
    sx.observe("err", err)
    sx.check(now == cwd, "directory restored", lambda: now)
    sx.check(not left, "temporary files removed", lambda: left)
    if err is None:
        sx.check(not missing and sorted(outputs(out)) == sorted({target[tags], *before}) and content(out)[target[tags]] != before.get(target[tags]),
                 "the wheel is written", lambda: outputs(out))
        return
    sx.check(content(out) == before, "no wheel is written", lambda: f"{err} {fl.count}: {sorted(set(content(out)) ^ set(before))}")
    sx.check(all(content(ind).get(k) == v for k, v in was_in.items()), "input unchanged", lambda: err)
