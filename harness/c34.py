"""Stripping."""
import os

from harness.repairworld import elf_info, grafted_name, outputs, repair, unpack
from harness.wheelworld import G, elf, make_wheel, pyinit, wheel_name, write_elf
from symx.world import HOOKS

BOUNDS = {
    "quick": "an extension, one in another directory, a library and a program (in scripts or beside the package), an ELF file for another architecture and two other files; four external libraries, two of one "
             "name, any of nine links; two requested platforms, three library directories, with and without --strip; a wheel of which nothing has to be grafted",
    "thorough": "three more links",
}
ASSUMPTIONS = ["strip and patchelf are stand-ins (the former recorded; the latter validated against the real one)"]
LABELS = {"strip": ["stripped", "as needed", "before it is changed"]}
SAMPLE_P = 0.2


def jobs(tier):
    q = tier == "quick"
    return [("strip", [s, w, p, d, q]) for s in (True, False) for w in ("scripts", "beside") for p, d in (("auto", ".libs"), ("manylinux_2_17_x86_64", "/lib"), ("manylinux_2_28_x86_64", "_l"))[:3 if s else 1]]


def run(sx, name, params):
    strip, place, plat, sdir, quick = params
    base = os.path.realpath(sx.scratch)
    e1, e2 = base + "/e1", base + "/e2"
    so = {"a": "liba.so.1", "b": "libb.so.2", "t": "libt.so.1", "u": "libt.so.1"}
    src = {"a": f"{e1}/real-liba.so", "b": f"{e1}/libb.so.2", "t": f"{base}/t1/libt.so.1", "u": f"{base}/t2/libt.so.1"}
    edge = {}
    for k in ("ma", "mt", "nu", "lb", "xa", "ab", "ba") + (() if quick else ("na", "xb", "ma2")):
        edge[k[0], k[1:]] = sx.bool(k)
    edge.pop(("m", "a2"), None)

    def needed(s):
        return [G(g, so[t]) for (x, t), g in edge.items() if x == s]
    for k, p in src.items():
        write_elf(p, elf(soname=so[k], needed=needed(k), salt=k))
    os.symlink("real-liba.so", f"{e1}/liba.so.1")
    prog = "pkg-1.0.data/scripts/x y" if place == "scripts" else "pkg/bin/x y"
    fns = {"m": "pkg/m.so", "n": "pkg/sub/n.so", "l": "pkg/libl.so", "x": prog}
    files = {"pkg/m.so": elf(needed=["libc.so.6", *needed("m")], symbols=[pyinit("m")], rpath=f"{base}/t1"), "pkg/sub/n.so": elf(needed=needed("n"), symbols=[pyinit("n")], rpath=f"{base}/t2"),
             "pkg/libl.so": elf(soname="libl.so", needed=needed("l")), prog: elf(needed=["libc.so.6", *needed("x")]),
             "pkg/foreign.so": elf("aarch64", needed=["libc.so.6"], symbols=[pyinit("foreign")]), "pkg/text.so": "no", "pkg/__init__.py": ""}
    whl = make_wheel(base + "/in", wheel_name(), files)
    calls = []

    def tool(argv):
        if os.path.basename(argv[0]) in ("strip", "patchelf") and "--version" not in argv:
            p = os.path.realpath(str(argv[-1]))
            calls.append((os.path.basename(argv[0]), os.path.relpath(p, os.path.realpath(os.getcwd())), [str(x) for x in argv[1:-1]]))
        return None
    HOOKS["tool"] = tool
    try:
        assert repair(whl, base + "/out", plat, ldpaths=e1, strip=strip, lib_sdir=sdir) == 0
    finally:
        del HOOKS["tool"]
    (out,) = outputs(base + "/out")
    got = unpack(f"{base}/out/{out}", base + "/un")
    done = sorted(p for t, p, _ in calls if t == "strip")
    sx.observe("done", [x for x in done if "-" not in x])
    if not strip:
        sx.check(done == [], "stripped", lambda: str(done))
        sx.reach("as needed")
        sx.reach("before it is changed")
        return
    where = {k: ("pkg.scripts/x y" if k == "x" and elf_info(got[f]) is None else f) for k, f in fns.items()}
    lib = f"pkg{sdir}/"
    copies = sorted(n for n in got if n.startswith(lib))
    sx.check(done == sorted([*where.values(), *copies]), "stripped", lambda: f"{done} of {sorted(got)}")
    direct = {t: sx.Or(*[g for (s, u), g in edge.items() if u == t and s in fns]) for t in so}
    reach = dict(direct)
    for _ in range(2):
        reach = {t: sx.Or(reach[t], *[sx.And(reach[s], g) for (s, u), g in edge.items() if u == t and s in so]) for t in so}
    sx.check(sx.And(*[sx.Iff(lib + grafted_name(src[t]) in done, reach[t]) for t in so]), "as needed", lambda: str(done))
    first = {}
    for i, (t, p, opts) in enumerate(calls):
        if t == "patchelf" and "--print-rpath" not in opts:
            first.setdefault(p, i)
    sx.check(all(t != "strip" or first.get(p, i) >= i for i, (t, p, _) in enumerate(calls)), "before it is changed", lambda: str(calls))
