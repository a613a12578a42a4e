"""ELF programs in the scripts directory."""
import os
import sys

from harness.repairworld import elf_info, grafted_name, leads_to, outputs, repair, unpack
from harness.wheelworld import G, elf, make_wheel, pyinit, wheel_name, write_elf
from symx.world import set_zip_attr, zip_attrs

BOUNDS = {
    "quick": "a program at any of 8 places (in the scripts directory, below it, beside it, in directories of like names) with any of 6 file names (spaces, quotes, non-ASCII, backslash) and every mode of nine bits, "
             "a second program in scripts, a text script and an extension; each ELF file linked to either of two libraries (one needing the other) or to none, the program also to libpython or not; with and without strip; "
             "three library directories",
    "thorough": "every name at every place",
}
ASSUMPTIONS = ["patchelf does what its options say (stand-in validated against the real one)", "execv and sysconfig (recorded by stand-ins when the shim is run)"]
LABELS = {"shim": ["moved exactly when it needs a grafted library", "shim runs the moved file", "permissions", "moved file patched", "no other file replaced"]}
SAMPLE_P = 0.15
D = "pkg-1.0.data"
PY = "libpython3.12.so.1.0"
PLACES = [f"{D}/scripts/{{}}", f"{D}/scripts/sub/{{}}", f"{D}/platlib/scripts/{{}}", "pkg/scripts/{}", f"{D}/data/scripts/{{}}", f"{D}/script/{{}}", "scripts/{}", f"{D}x/scripts/{{}}"]
NAMES = ["prog", "my prog", "it's", 'say "hi"', "prög.exe", "a\\nb"]


def jobs(tier):
    if tier != "quick":
        return [("shim", [p, n, s, d]) for p in range(8) for n in range(6) for s, d in ((False, ".libs"), (True, "/.libs"))]
    return ([("shim", [p, 0, False, ".libs"]) for p in range(8)] + [("shim", [0, n, False, ".libs"]) for n in range(1, 6)] +
            [("shim", [0, 0, True, ".libs"]), ("shim", [0, 1, True, "/.libs"]), ("shim", [0, 0, False, "_x"])])


def content(p):
    with open(p, "rb") as f:
        return f.read()


def run(sx, name, params):
    place, nm, strip, sdir = params
    base = os.path.realpath(sx.scratch)
    ext = base + "/ext"
    prog = PLACES[place].format(NAMES[nm])
    other = f"{D}/scripts/other"
    edge = {k: sx.bool("_".join(k)) for k in (("p", "a"), ("p", "b"), ("o", "a"), ("m", "b"), ("a", "b"))}
    py = sx.bool("p_py")

    def needed(s):
        return [G(g, f"lib{t}.so.1") for (x, t), g in edge.items() if x == s]
    write_elf(f"{ext}/liba.so.1", elf(soname="liba.so.1", needed=needed("a")))
    write_elf(f"{ext}/libb.so.1", elf(soname="libb.so.1"))
    text = f"{D}/scripts/text"
    files = {prog: elf(needed=["libc.so.6", *needed("p"), G(py, PY)], rpath="/opt/x:$ORIGIN/sub"), other: elf(needed=["libc.so.6", *needed("o")]),
             text: "#!python\nprint()\n", "pkg/m.so": elf(needed=["libc.so.6", *needed("m")], symbols=[pyinit("m")])}
    whl = make_wheel(base + "/in", wheel_name(), files, modes={prog: 0o100755, other: 0o100750, text: 0o100755})
    mode = sx.int("mode", 0, 0o777)
    set_zip_attr(whl, prog, (mode | 0o100000) << 16)
    before = unpack(whl, base + "/un0")
    before = {n: content(p) for n, p in before.items()}
    rc = repair(whl, base + "/out", plat="manylinux_2_28_x86_64", ldpaths=ext, strip=strip, lib_sdir=sdir)
    assert rc == 0
    out = outputs(base + "/out")
    assert len(out) == 1
    root = base + "/un"
    got = unpack(f"{base}/out/{out[0]}", root)
    attrs = zip_attrs(f"{base}/out/{out[0]}")
    libdir = f"pkg{sdir}"
    where = {"p": prog, "o": other}
    moved, isscript = {}, {"p": place == 0, "o": True}
    oks = []
    for k, fn in where.items():
        some = sx.Or(*[g for (x, _), g in edge.items() if x == k])
        new = "pkg.scripts/" + fn.rsplit("/", 1)[1]
        is_moved = new in got
        moved[k] = new if is_moved else fn
        # one that needs libpython only may be moved
        oks += [sx.Implies(is_moved, sx.And(isscript[k], sx.Or(some, k == "p" and py))), sx.Implies(sx.And(isscript[k], some), is_moved)]
        oks.append((elf_info(got[fn]) is None) == is_moved)
    oks.append(sum(n.startswith("pkg.scripts/") for n in got) == sum(moved[k] != where[k] for k in where))
    sx.check(sx.And(*oks), "moved exactly when it needs a grafted library", lambda: str(sorted(got)))
    sx.observe("moved", sorted(moved.values()))
    ran = []
    for k, fn in where.items():
        if moved[k] != fn:
            ran.append(runs(content(got[fn])) == [(os.path.join("/plat lib", moved[k]), [os.path.join("/plat lib", moved[k]), ["prog", "-x", "a b"]])])
    sx.check(all(ran), "shim runs the moved file", lambda: str([content(got[f]) for f in where.values()]))
    perm = {n: (attrs[n] >> 16) & 0o7777 for n in got}
    sx.check(sx.And(sx.eq(perm[prog], mode | 0o600), sx.eq(perm[moved["p"]], mode | 0o600), perm[other] == 0o750, perm[moved["o"]] == 0o750, perm[text] == 0o755), "permissions", lambda: str(perm))
    newname = {t: grafted_name(f"{ext}/lib{t}.so.1") for t in "ab"}
    oks = []
    for k, fn in {**moved, "m": "pkg/m.so"}.items():
        inf = elf_info(got[fn])
        some = sx.Or(*[g for (x, _), g in edge.items() if x == k])
        oks += [sx.Iff(newname[t] in inf.needed, g) for (x, t), g in edge.items() if x == k]
        oks += [PY not in inf.needed, not any(f"lib{t}.so.1" in inf.needed for t in "ab"), inf.needed.count("libc.so.6") == 1]
        oks.append(sx.Implies(some, leads_to(inf.rpath, fn, root, libdir)))
        if k == "p":
            rp = (inf.rpath or "").split(":")
            oks += [sx.Implies(some, "/opt/x" not in rp), sx.Implies(sx.Not(sx.Or(some, py)), "/opt/x" in rp)]
    sx.check(sx.And(*oks), "moved file patched", lambda: str({n: elf_info(p) for n, p in got.items()}))
    new = set(got) - set(files) - {n for n in got if n.startswith((libdir + "/", "pkg.scripts/"))}
    oks = [all(n.startswith("pkg-1.0.dist-info/") for n in new), content(got[text]) == before[text], all(f in got for f in files)]
    if not strip:
        for k, fn in (("p", prog), ("o", other), ("m", "pkg/m.so")):
            oks.append(sx.Iff(content(got[fn]) == before[fn], sx.Not(sx.Or(k == "p" and py, *[g for (x, _), g in edge.items() if x == k]))))
    sx.check(sx.And(*oks), "no other file replaced", lambda: str(sorted(got)))


def runs(src):
    """what the shim executes: [(file, argv)]"""
    import sysconfig
    if not src.startswith(b"#!python\n"):
        return None
    try:
        code = compile(src, "shim", "exec")
    except (SyntaxError, ValueError):
        return None
    calls = []
    saved = os.execv, sysconfig.get_path, sys.argv

    def execv(path, argv):
        calls.append((path, [path, list(argv)]))
    os.execv, sys.argv = execv, ["prog", "-x", "a b"]
    sysconfig.get_path = lambda n, *a, **k: "/plat lib" if n == "platlib" else "/wrong"
    try:
        exec(code, {"__name__": "__main__"})    # noqa: S102
    except Exception:
        return None
    finally:
        os.execv, sysconfig.get_path, sys.argv = saved
    return calls
