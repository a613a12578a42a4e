"""The same input gives the same output."""
import contextlib
import itertools
import json
import os
import subprocess
import sys
import zipfile
from pathlib import Path

from harness.repairworld import elf_info, repair, unpack
from harness.wheelworld import G, Sym, elf, make_wheel, pyinit, wheel_name, write_elf
from symx.world import HOOKS, captured, set_text

BOUNDS = {
    "quick": "two extensions, three external libraries (one whitelisted by newer policies), any of four or five links, each library owned by a package or not, black-listed symbols of two libraries; "
             "every order of sets in which the libraries' names stand in any of their 6 orders and the rest in reverse, directories listed in reverse order with half of them; repair (to two policies) and show, text and JSON",
    "thorough": "a fourth library, up to nine links, the library order and the directory order apart",
}
ASSUMPTIONS = ["sets are gone through in an order that depends on the members' names", "patchelf's output does not depend on the order of its options (seen so for --replace-needed and --remove-needed)",
               "SOURCE_DATE_EPOCH is set, as for reproducible archives"]
LABELS = {"repair": ["same name", "same files", "same content"], "show": ["same report"]}
SAMPLE_P = 0.004
SO = {"a": "liba.so.1", "b": "libb.so.2", "e": "libmvec.so.1", "q": "libq.so"}
SEEDS = 10


def jobs(tier):
    q = tier == "quick"
    return [("repair", [p, q]) for p in ("manylinux_2_17", "manylinux_2_28")] + [("show", [j, q]) for j in (True, False)]


def links(q, show):
    return ["m_a", "m_b", "a_e", "n_a" if show else "n_b"] + ([] if show and q else ["b_e"]) + ([] if q else ["m_q", "q_b", "n_e"])


def run(sx, name, params):
    what, q = params
    base = os.path.realpath(sx.scratch)
    edge = {k: sx.bool(k) for k in links(q, name == "show")}
    own = {k: sx.bool("own_" + k) if name == "repair" else False for k in ("abe" if q else "abeq")}
    bad = [sx.bool("bad0"), sx.bool("bad1")] if name == "show" else [False, False]
    perms = list(itertools.permutations(own))
    order = sx.conc(sx.choice("order", list(range(len(perms)))))
    backwards = bool(order % 2) if q else sx.conc(sx.bool("backwards"))
    from harness.common import oracle_policies
    top = oracle_policies("glibc", "x86_64")[-1]
    old = next(p for p in oracle_policies("glibc", "x86_64") if p[0] == "manylinux_2_17_x86_64")
    zsym = sorted(top[4]["libz.so.1"])[:2]
    csym = sorted(old[4]["libc.so.6"])[0]
    need = {s: [G(g, SO[k[2]]) for k, g in edge.items() if k[0] == s] for s in "mnabeq"}
    for k in own:
        write_elf(f"{base}/ext/{SO[k]}", elf(soname=SO[k], needed=["libc.so.6", *need[k]], salt=k))
    files = {f"pkg/{m}.so": elf(needed=["libc.so.6", "libz.so.1", *need[m]], symbols=[pyinit(m), *[Sym(z, guard=g) for z, g in zip([*zsym, csym], [*bad, bad[1]])]],
                                verneed=[("libc.so.6", ["GLIBC_2.5", "GLIBC_2.17"]), ("libm.so.6", ["GLIBC_2.17"])]) for m in "mn"}
    files |= {"pkg/z.txt": b"z", "pkg/b/__init__.py": b"", "pkg/a/__init__.py": b"1", "pkg-1.0.dist-info/entry_points.txt": b"", "pkg-1.0.dist-info/licenses/L": b"L"}
    for i in "12":
        make_wheel(base + "/in" + i, wheel_name(), files)
    if sx.sym:
        from symx import core
        first = once(base, "1", name, what, own, False)
        rank = {SO[k]: i for i, k in enumerate(perms[order])}

        def place(v):
            v = os.path.basename(str(v))
            return next((i for n, i in rank.items() if n in v), 9)
        core.ctx().sym_order = place
        try:
            second = [once(base, "2", name, what, own, backwards)]
        finally:
            core.ctx().sym_order = None
    else:
        seeds = [fresh(base, "1", name, what, own, False, 0)] + [fresh(base, "2", name, what, own, backwards, s) for s in range(1, SEEDS)]
        first, *second = [s() for s in seeds]
    if name == "show":
        sx.check(all(first == s for s in second), "same report", lambda: str((first, second)))
        return
    sx.observe("name", first[0])
    sx.check(all(first[0] == s[0] for s in second), "same name", lambda: str((first, second)))
    sx.check(all([f[0] for f in first[1]] == [f[0] for f in s[1]] for s in second), "same files", lambda: str((first, second)))
    sx.check(all(first[1] == s[1] for s in second), "same content", lambda: str((first, second)))


def fresh(base, i, *args):
    """the same in a process of its own, with a hash seed"""
    *args, seed = args
    script = "import sys; sys.path[:0] = sys.argv[1].split(':'); import harness.c35 as c; c.main(sys.argv[2])"
    from symx import world
    popen = world.REAL_POPEN
    path = ":".join(p for p in sys.path if p)
    out = f"{base}/result{seed}"
    p = popen([sys.executable, "-c", script, path, json.dumps([base, i, *args, out])], env={**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONDONTWRITEBYTECODE": "1"},
              stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def result():
        err = p.communicate()[1].decode()
        try:
            return json.loads(Path(out).read_text())
        except OSError:
            return ["failed", err[-300:]]
    return result


def main(arg):
    import logging
    import tempfile

    from symx import world
    logging.disable(logging.CRITICAL)
    world.install_plain()
    *args, out = json.loads(arg)
    os.makedirs(out + "-t")
    tempfile.tempdir = out + "-t"
    os.makedirs(out + "-o")
    r = once(*args, dest=out + "-o")
    Path(out).write_text(json.dumps(r))


@contextlib.contextmanager
def listed(backwards):
    """directories are listed in sorted or in reverse order"""
    scan, ls = os.scandir, os.listdir

    class Scan:
        _sx_ok_ = True

        def __init__(self, entries):
            self.entries = iter(entries)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.entries)

        def __enter__(self):
            return self

        def __exit__(self, *_):
            pass

        def close(self):
            pass

    def scandir(p="."):
        with scan(p) as it:
            return Scan(sorted(it, key=lambda e: e.name, reverse=backwards))
    scandir._sx_ok_ = True
    os.scandir, os.listdir = scandir, lambda p=".": sorted(ls(p), reverse=backwards)
    try:
        yield
    finally:
        os.scandir, os.listdir = scan, ls


def once(base, i, name, what, own, backwards, dest=None):
    dest = dest or f"{base}/o{i}"
    bindir = f"{dest}/bin"
    os.makedirs(bindir)
    for t in ("dpkg", "patchelf", "strip"):
        Path(f"{bindir}/{t}").write_text("#!/bin/sh\nexit 99\n")
        os.chmod(f"{bindir}/{t}", 0o755)
    os.environ["PATH"] = bindir
    os.environ["SOURCE_DATE_EPOCH"] = "1700000000"
    set_text("/etc/os-release", "ID=debian\nVERSION_ID=12\n")

    def tool(argv):
        if os.path.basename(argv[0]) != "dpkg":
            return None
        if argv[1] == "--version":
            return 0, b"1\n", b""
        if argv[1] == "-S":
            for k, g in own.items():
                if argv[2] == f"{base}/ext/{SO[k]}":
                    from symx import world
                    if world.MODE == "sym":
                        from symx import core
                        g = core.concretize(g) if core.is_sym(g) else g
                    if g:
                        return 0, f"lib{k}1:amd64: {argv[2]}\n".encode(), b""
            return 1, b"", b"no path found\n"
        return 0, f"Package: {argv[2]}\nVersion: 2:1.0-3\n".encode(), b""
    HOOKS["tool"] = tool
    whl = f"{base}/in{i}/" + wheel_name()
    with listed(backwards):
        if name == "show":
            import argparse

            from auditwheel import main_show
            from harness.repairworld import Parser
            a = argparse.Namespace(WHEEL_FILE=Path(whl), JSON=what, DISABLE_ISA_EXT_CHECK=False, ALLOW_PURE_PY_WHEEL=False, LDPATHS=base + "/ext", verbose=1, prog="auditwheel", cmd="show", func=None)
            rc, out = captured(main_show.execute, a, Parser())
            return [rc, out]
        repair(Path(whl), dest + "/w", what + "_x86_64", ldpaths=base + "/ext")
    (o,) = os.listdir(dest + "/w")
    place = unpack(f"{dest}/w/{o}", dest + "/un")
    files = []
    with zipfile.ZipFile(f"{dest}/w/{o}") as z:
        for f in z.infolist():
            body = z.read(f)
            if f.filename.endswith("/RECORD"):
                body = [ln.split(b",")[0] for ln in body.splitlines()]
            elif ".so" in f.filename:
                body = str(elf_info(place[f.filename])).encode()
            files.append([f.filename, f.external_attr if f.filename in place else 0, list(f.date_time), str(body)])
    return [o, files]
