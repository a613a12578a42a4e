"""Refusals and tags of repair."""
import os

from harness.common import oracle_policies
from harness.repairworld import Refused, outputs, plat_tags, repair
from harness.wheelworld import G, Note, Sym, elf, highest, lowest_of, make_wheel, wheel_name, write_elf

BOUNDS = {
    "quick": "an extension with version needs over 4 levels, Python 2 or 3, UCS2 symbol, PyFPE symbol, black-listed symbols (of a library every policy black-lists, of "
             "one only old policies do), ISA level above the architecture, a library some policies whitelist: each present or not; requested auto, linux, 5 policies or "
             "an alias; (Python 3 and PyFPE only with auto) with and without --only-plat and --disable-isa-ext-check; wheels of two libcs and three architectures against requests for others; commands with two wheels, "
             "of one architecture or (one named any) of two",
    "thorough": "version needs over 7 levels, everything with every request, four more requested policies",
}
ASSUMPTIONS = ["patchelf does what its options say (stand-in validated against the real one)", "the policy JSON files are data read as shipped"]
LABELS = {"refuse": ["refused iff a constraint is below", "no wheel of a refused request", "tags of the output"],
          "several": ["each wheel on its own"], "mixed": ["each wheel on its own"], "foreign": ["another architecture or libc is refused", "no wheel of a refused request"]}
SAMPLE_P = 0.05
ALL = ["GLIBC_2.5", "GLIBC_2.12", "GLIBC_2.17", "GLIBC_2.24", "GLIBC_2.28", "GLIBC_2.38", "GLIBC_9.9"]
SOME = ["GLIBC_2.5", "GLIBC_2.17", "GLIBC_2.38", "GLIBC_9.9"]
X = "_x86_64"
PLATS = ["auto", "linux" + X, "manylinux1" + X, "manylinux_2_17" + X, "manylinux_2_28" + X, "manylinux_2_39" + X]
MORE = ["manylinux2010" + X, "manylinux2014" + X, "manylinux_2_24" + X, "manylinux_2_41" + X]
FOREIGN_WHEELS = ["linux_x86_64", "manylinux_2_28_x86_64", "musllinux_1_2_x86_64", "linux_aarch64", "linux_i686", "manylinux2014_i686.manylinux_2_17_i686"]
FOREIGN_PLATS = ["manylinux_2_17_x86_64", "manylinux_2_17_aarch64", "manylinux1_i686", "musllinux_1_1_x86_64", "musllinux_1_2_aarch64", "linux_x86_64"]


def jobs(tier):
    q = tier == "quick"
    return [("mixed", [a, p]) for a in ("x86_64", "i686", "aarch64") for p in ("auto", "manylinux_2_17")] + [("refuse", [p, q]) for p in PLATS + ([] if q else MORE)] + [("foreign", [w]) for w in FOREIGN_WHEELS] + [("several", [p, q]) for p in ("auto", "manylinux_2_17" + X)]


def run(sx, name, params):
    base = os.path.realpath(sx.scratch)
    {"refuse": refuse, "foreign": foreign, "several": several, "mixed": mixed}[name](sx, base, *params)


def refuse(sx, base, plat, quick):
    pols = oracle_policies("glibc", "x86_64")
    low, top = pols[0][0], pols[-1][0]
    rank = {p[0]: i for i, p in enumerate(pols)}
    ver = sx.choice("ver", SOME if quick else ALL)
    py2, ucs, fpe, isa, blz, blc, mvec = (sx.bool(x) for x in ("py2", "ucs", "fpe", "isa", "blz", "blc", "mvec"))
    if quick:
        if plat != "auto":
            py2, fpe = True, False
        if plat in ("linux" + X, "manylinux1" + X):
            mvec = blc = False
    only, isa_off = sx.bool("only_plat"), sx.bool("isa_off")
    zsym = sorted(pols[-1][4]["libz.so.1"])[0]
    csym = sorted(next(p for p in pols if p[0] == "manylinux_2_17" + X)[4]["libc.so.6"])[0]
    ext = base + "/ext"
    write_elf(f"{ext}/libmvec.so.1", elf(soname="libmvec.so.1"))
    write_elf(f"{ext}/libz.so.1", elf(soname="libz.so.1"))
    syms = [Sym("PyUnicodeUCS2_X", guard=ucs), Sym("PyFPE_jbuf", guard=fpe), Sym(zsym, guard=blz), Sym(csym, guard=blc),
            Sym("initm", shndx="1", guard=py2), Sym("PyInit_m", shndx="1", guard=sx.Not(py2))]
    whl = make_wheel(base + "/in", wheel_name(), {"pkg/m.so": elf(
        needed=["libc.so.6", "libz.so.1", G(mvec, "libmvec.so.1")], verneed=[("libc.so.6", [ver])], symbols=syms,
        notes=[G(isa, Note(props=[(0xC0008002, 4)]))])})
    refused = False
    try:
        code = repair(whl, base + "/out", plat=plat, ldpaths=ext, only_plat=only, isa_off=isa_off)
        assert code == 0
    except Refused:
        refused = True
    # the constraints
    sym = highest(sx, pols, lambda p: True if p[2].get("GLIBC") is None else sx.in_(ver, p[2]["GLIBC"]))
    ucsp = sx.If(sx.And(py2, ucs), low, top)
    black = highest(sx, pols, lambda p: sx.And(sx.Implies(blz, zsym not in p[4].get("libz.so.1", ())), sx.Implies(blc, csym not in p[4].get("libc.so.6", ()))))
    mach = sx.If(sx.And(isa, sx.Not(isa_off)), low, top)
    fpep = sx.If(fpe, low, top)
    without = next(p[0] for p in reversed(pols[1:]) if "libmvec.so.1" in p[3])      # the best that needs no grafting

    def grafts(tag):
        p = next(p for p in pols if tag == p[0] or tag in p[5])
        return p[0] != low and "libmvec.so.1" not in p[3]
    # what needs libmvec grafted also counts its symbols: it has none
    if plat == "auto":
        graftp = sx.If(mvec, without, top)
    else:
        graftp = top if grafts(plat) else sx.If(mvec, without, top)
    overall = lowest_of(sx, pols, sym, ucsp, black, mach, fpep, graftp)
    if plat == "auto":
        req = sx.lift(lambda t: t if t != low else pols[1][0], overall)
    else:
        req = next(p[0] for p in pols if plat == p[0] or plat in p[5])
    below = sx.Or(*[sx.lift(lambda r, c: rank[r] > rank[c], req, c) for c in (sym, ucsp, black, mach)])
    sx.observe("refused", refused)
    sx.check(sx.Iff(refused, below), "refused iff a constraint is below", lambda: f"refused={refused} request={req} {[sym, ucsp, black, mach]}")
    out = outputs(base + "/out")
    if refused:
        sx.check(out == [], "no wheel of a refused request", lambda: str(out))
        sx.reach("tags of the output")
        return
    sx.reach("no wheel of a refused request")
    alias = {p[0]: (p[0], *p[5]) for p in pols}
    want = sx.lift(lambda r, o, only: tuple(sorted({*alias[r], *(alias[o] if not only and rank[r] < rank[o] else ())})), req, overall, only)
    sx.check(sx.And(len(out) == 1, sx.eq(tuple(sorted(plat_tags(out[0]))), want)), "tags of the output", lambda: f"{out}, want {want}")


def several(sx, base, plat, quick):
    """each of the wheels named in one command is treated as if it were the only one, up to the first that fails"""
    pols = oracle_policies("glibc", "x86_64")
    low, top = pols[0][0], pols[-1][0]
    rank = {p[0]: i for i, p in enumerate(pols)}
    alias = {p[0]: (p[0], *p[5]) for p in pols}
    ext = base + "/ext"
    write_elf(f"{ext}/liba.so.1", elf(soname="liba.so.1", verneed=[("libc.so.6", ["GLIBC_2.17"])]))
    names = {"a": "linux_x86_64", "b": "linux_x86_64", "c": "linux_x86_64"}
    only = sx.bool("only_plat")
    wheels, state = [], []
    for w in "abc" if not quick else ("a", "b"):
        ver, dep, isa = sx.choice(f"ver_{w}", SOME), sx.bool(f"dep_{w}"), sx.bool(f"isa_{w}") if w != "a" or not quick else False
        wheels.append(make_wheel(base + "/in", wheel_name(plat=names[w], name=w), {"pkg/m.so": elf(
            needed=["libc.so.6", G(dep, "liba.so.1")], verneed=[("libc.so.6", [ver])], symbols=[Sym("PyInit_m", shndx="1")],
            notes=[G(isa, Note(props=[(0xC0008002, 4)]))])}, name=w))
        sym = highest(sx, pols, lambda p: True if p[2].get("GLIBC") is None else sx.And(sx.in_(ver, p[2]["GLIBC"]), sx.Implies(dep, "GLIBC_2.17" in p[2]["GLIBC"])))
        mach = sx.If(isa, low, top)
        overall = lowest_of(sx, pols, sym, mach)
        req = sx.lift(lambda t: t if t != low else pols[1][0], overall) if plat == "auto" else next(p[0] for p in pols if plat == p[0] or plat in p[5])
        refused = sx.lift(lambda r, a, b: rank[r] > min(rank[a], rank[b]), req, sym, mach)
        want = sx.lift(lambda r, o, only: tuple(sorted({*alias[r], *(alias[o] if not only and rank[r] < rank[o] else ())})), req, overall, only)
        state.append((w, refused, want))
    failed = False
    try:
        assert repair(wheels, base + "/out", plat=plat, ldpaths=ext, only_plat=only) == 0
    except Refused:
        failed = True
    got = {f[0]: tuple(sorted(plat_tags(f))) for f in outputs(base + "/out")}
    sx.observe("got", sorted(got.items()))
    oks, sofar = [len(got) == len(outputs(base + "/out"))], False
    for w, refused, want in state:
        sofar = sx.Or(sofar, refused)
        if w in got:
            oks.append(sx.And(sx.Not(sofar), sx.eq(got[w], want)))
        else:
            oks.append(sofar)
    oks.append(sx.Iff(failed, sofar))
    sx.check(sx.And(*oks), "each wheel on its own", lambda: f"failed={failed} {got}, want {state}")


def mixed(sx, base, arch, plat):
    """a wheel whose name tells the architecture and one whose name does not"""
    other = sx.conc(sx.choice("other", ["x86_64", "aarch64", "i686", "s390x"]))
    first = sx.conc(sx.bool("first"))
    if plat != "auto":
        plat += "_" + arch
    want, wheels, tell = {}, [], []
    # what both have: 2.17 at least
    for w, a, name, pure in (("a", arch, f"linux_{arch}", "false"), ("b", other, "any", "true")):
        pols = oracle_policies("glibc", a)
        ver = sx.choice(f"ver_{w}", ["GLIBC_2.17", "GLIBC_2.28"])
        wheels.append(make_wheel(base + "/in", wheel_name(plat=name, name=w), {"pkg/m.so": elf(a, needed=["libc.so.6"], verneed=[("libc.so.6", [ver])],
                                                                                         symbols=[Sym("PyInit_m", shndx="1")])}, name=w, purelib=pure))
        best = highest(sx, pols, lambda p: True if p[2].get("GLIBC") is None else sx.in_(ver, p[2]["GLIBC"]))
        alias = {p[0]: (p[0], *p[5]) for p in pols}
        rank = {p[0]: i for i, p in enumerate(pols)}
        ask = None if plat == "auto" else f"manylinux_2_17_{a}"
        # asked for another architecture than it is of: nothing to repair
        tell.append(sx.Or(ask is not None and a != arch, sx.lift(lambda b: ask is not None and rank[ask] > rank[b], best)))
        want[w] = sx.lift(lambda b: tuple(sorted({*alias[b], *(alias[ask] if ask else ())})), best)
    order = [0, 1] if first else [1, 0]
    failed = False
    try:
        failed = repair([wheels[i] for i in order], base + "/out", plat=plat, ldpaths="") != 0
    except Refused:
        failed = True
    got = {f[0]: tuple(sorted(plat_tags(f))) for f in outputs(base + "/out")}
    sx.observe("got", sorted(got.items()))
    oks, sofar = [len(got) == len(outputs(base + "/out"))], False
    for i in order:
        w = "ab"[i]
        sofar = sx.Or(sofar, tell[i])
        oks.append(sx.And(sx.Not(sofar), sx.eq(got[w], want[w])) if w in got else sofar)
    oks.append(sx.Iff(failed, sofar))
    sx.check(sx.And(*oks), "each wheel on its own", lambda: f"failed={failed} {got}, want {want} {tell}")


def foreign(sx, base, tag):
    arch = "x86_64" if tag.endswith("x86_64") else tag.rsplit("_", 1)[1]
    plat = sx.conc(sx.choice("plat", FOREIGN_PLATS))
    libc = "musl" if tag.startswith("musl") else "glibc" if tag.startswith("many") else None
    whl = make_wheel(base + "/in", wheel_name(plat=tag), {"pkg/m.so": elf(arch=arch, needed=["libc.musl-x86_64.so.1" if libc == "musl" else "libc.so.6"],
                                                                        symbols=[Sym("PyInit_m", shndx="1")])})
    parch = "x86_64" if plat.endswith("x86_64") else plat.rsplit("_", 1)[1]
    plibc = "musl" if plat.startswith("musl") else "glibc" if plat.startswith("many") else None
    other = arch != parch or (libc is not None and plibc is not None and libc != plibc)
    failed = False
    try:
        failed = repair(whl, base + "/out", plat=plat) != 0
    except Exception:
        failed = True
    sx.observe("failed", failed)
    if other:
        sx.check(failed, "another architecture or libc is refused", lambda: plat)
        sx.check(outputs(base + "/out") == [], "no wheel of a refused request", lambda: str(outputs(base + "/out")))
    else:
        sx.reach("another architecture or libc is refused")
        sx.reach("no wheel of a refused request")
