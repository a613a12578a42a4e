"""What repair writes, analysed and repaired again."""
import os
import zipfile

from harness.common import oracle_policies
from harness.repairworld import Refused, elf_info, outputs, plat_tags, repair, unpack
from harness.wheelworld import G, Sym, analyze, elf, make_wheel, pyinit, wheel_name, write_elf

BOUNDS = {
    "quick": "an extension, a library of the wheel and a program in scripts; four external libraries (one whitelisted by newer policies, one libpython, one black-listed everywhere and whitelisted) "
             "with any of 12 links; version needs of the extension and of two of the libraries over four levels; a black-listed symbol; requested auto, two policies (one by its alias) "
             "with and without --only-plat; x86_64, aarch64 and musl; excluded libpython or not",
    "thorough": "four more links, three more version needs, two more requested policies, with strip too",
}
ASSUMPTIONS = ["patchelf does what its options say (stand-in validated against the real one)", "no wheel has PyFPE symbols (repair does not refuse for them)"]
LABELS = {"round": ["nothing outside is needed", "qualifies for its tags", "same name again", "same content again"]}
SAMPLE_P = 0.1
LEVELS = ["GLIBC_2.17", "GLIBC_2.28", "GLIBC_2.38", "GLIBC_9.9"]
PY = "libpython3.12.so.1.0"


def jobs(tier):
    q = tier == "quick"
    plats = ["auto", "manylinux_2_28", "manylinux2014"] + ([] if q else ["manylinux_2_17", "manylinux_2_39"])
    return [("round", ["x86_64", p, q, s, "musl"]) for p in ("auto", "musllinux_1_2") for s in ([False] if q else [False, True])] + [("round", [a, p, q, s, "glibc"]) for a in ("x86_64", "aarch64") for p in plats for s in ([False] if q else [False, True]) if not q or a == "x86_64" or p == "auto"]


def run(sx, name, params):
    arch, plat, quick, strip, libc = params
    base = os.path.realpath(sx.scratch)
    ext = base + "/ext"
    musl = libc == "musl"
    if musl:
        from auditwheel.libc import Libc, LibcVersion
        Libc.get_current_version = lambda self: LibcVersion(1, 2)    # of the host: musl 1.2
    pols = [p for p in oracle_policies(libc, arch) if not musl or p[0] != "musllinux_1_1_x86_64"]
    rank = {p[0]: i for i, p in enumerate(pols)}
    so = {"a": "liba.so.1", "b": "libb.so.2", "e": "libmvec.so.1", "z": "libz.so.1", "p": PY, "l": "libl.so"}
    edge = {}

    def link(s, *ts):
        for t in ts:
            edge[s, t] = sx.bool(f"{s}_{t}")
    small = quick and (plat != "auto" or arch != "x86_64" or musl)
    link("m", "a", *(["p", "l"] if not small else []), *([] if quick else ["e"]))
    link("l", "b", *([] if quick else ["e"]))
    link("x", *(["a"] if not small else ["b"]))
    link("a", *(["e"] if small else []), "b", "p")
    link("b", *(["e"] if not small else []), *([] if quick else ["a"]))
    ver = {k: sx.choice("v_" + k, LEVELS if not quick else LEVELS[1:] if k == "m" else LEVELS[1:3]) for k in (("b",) if small else ("m",)) + (() if quick else ("b", "l"))}
    if musl:
        ver = {}
    bad = sx.bool("bad") if (small or not quick) and not musl else False
    zsym = "inflate_fast" if musl else sorted(pols[-1][4]["libz.so.1"])[0]

    def spec(k, **kw):
        needed = ["libc.musl-x86_64.so.1" if musl else "libc.so.6", *[G(g, so[t]) for (s, t), g in edge.items() if s == k]]
        return elf(arch, needed=needed, verneed=[("libc.so.6", [ver[k]])] if k in ver else [], **kw)
    for k in "abe":
        write_elf(f"{ext}/{so[k]}", spec(k, soname=so[k]))
    for k in "zp":
        write_elf(f"{ext}/{so[k]}", elf(arch, soname=so[k]))
    whl = make_wheel(base + "/in", wheel_name(plat=f"linux_{arch}"), {
        "pkg/m.so": spec("m", symbols=[pyinit("m"), Sym(zsym, guard=bad)], runpath="$ORIGIN:/usr/lib/x"),
        "pkg/libl.so": spec("l", soname="libl.so", symbols=[Sym(zsym)]),
        "pkg-1.0.data/scripts/x": spec("x")})
    full = plat if plat == "auto" else f"{plat}_{arch}"
    only = sx.conc(sx.bool("only_plat")) if plat == "manylinux2014" else False
    exclude = ["libpython3*"] if small and sx.conc(sx.bool("without")) else []
    kw = dict(plat=full, only_plat=only, strip=strip, exclude=exclude)
    try:
        assert repair(whl, base + "/out", ldpaths=ext, **kw) == 0
    except Refused:
        sx.observe("out", "refused")
        for x in LABELS["round"]:
            sx.reach(x)
        return
    (out,) = outputs(base + "/out")
    from pathlib import Path
    new = Path(base, "out", out)
    tags = plat_tags(out)
    carried = [p[0] for p in pols if p[0] in tags]
    info = analyze(new, libc, arch, exclude=exclude, graft=False)
    sx.observe("tags", tags)
    left = {t: sorted(info.external_refs[t].libs) for t in carried}
    sx.check(len(carried) > 0 and not any(left.values()), "nothing outside is needed", lambda: f"{left}")
    got = info.overall_policy.name
    sx.check(all(rank[got] >= rank[t] for t in carried), "qualifies for its tags", lambda: f"{got} for {carried}")
    try:
        assert repair(new, base + "/out2", ldpaths=ext, **kw) == 0
        outs = outputs(base + "/out2")
    except Refused as e:
        outs = [str(e)]
    sx.check(outs == [out], "same name again", lambda: f"{out} {outs}")
    if outs == [out]:
        sx.check(contents(new) == contents(f"{base}/out2/{out}"), "same content again",
                 lambda: str([(n, elf_info(p), elf_info(q)) for (n, p), (_, q) in zip(sorted(unpack(new, base + "/u1").items()), sorted(unpack(f"{base}/out2/{out}", base + "/u2").items()))]))


def contents(whl):
    with zipfile.ZipFile(whl) as z:
        return [(i.filename, i.external_attr, z.read(i)) for i in z.infolist()]
