"""Analyses do not depend on what was analysed before."""
import os

from harness.repairworld import repair
from harness.wheelworld import G, Note, Sym, analyze, elf, make_wheel, pyinit, wheel_name, write_elf
from symx.world import isolated, set_env

BOUNDS = {
    "quick": "any of 8 analyses (five wheels, two of them of one name and one directory name, one for another libc and architecture; library directories given, from the environment, the host's or "
             "none; a library excluded; no ISA check; no grafting; a platform asked for) after any of up to 11 operations (the analyses, a repair of each, a failing "
             "analysis), then again; wheels with four links, version needs over 3 levels and an ISA level, each symbolic",
    "thorough": "after any two operations",
}
ASSUMPTIONS = ["wheels, libraries and the environment stay as they are between two analyses", "no library of the host is needed"]
LABELS = {"history": ["same as in a new process", "same again"]}
SAMPLE_P = 0.2
TARGETS = ["plain", "excluded", "envdirs", "nodirs", "twin", "musl", "exe", "host"]
NEEDS = ["plain", "excluded", "twin", "exe"]
BEFORE = [*TARGETS[:7], "musl2", "flags", "repair", "repair-twin"]
SOABI = "cpython-312-x86_64-linux-gnu"        # tells the libc
HOST = ["plain", "hostexe", "repair", "twin"]


def jobs(tier):
    return [("history", [t, b, 1 if tier == "quick" else 2]) for b, ts in (("graph", TARGETS), ("needs", NEEDS)) for t in ts]


def facts(x):
    def refs(d):
        return sorted((p, sorted((s, str(q)) for s, q in e.libs.items()), sorted((k, sorted(v)) for k, v in e.blacklist.items()), e.policy.name) for p, e in d.items())
    return [x.overall_policy.name, x.sym_policy.name, x.ucs_policy.name, x.pyfpe_policy.name, x.blacklist_policy.name, x.machine_policy.name, x.ref_policy.name,
            x.graft_policy.name, x.policies.libc.name, x.policies.architecture.value, [p.name for p in x.policies],
            sorted((k, sorted(v)) for k, v in x.versioned_symbols.items()), refs(x.external_refs),
            sorted((str(f), refs(d)) for f, d in x.full_external_refs.items())]


def run(sx, name, params):
    target, what, depth = params
    base = os.path.realpath(sx.scratch)
    e1, e2 = base + "/e1", base + "/e2"
    graph = what == "graph"
    ma, mb, ab, nb = (sx.bool(x) if graph else d for x, d in (("m_a", True), ("m_b", False), ("a_b", False), ("n_b", True)))
    va, vm = (sx.choice(x, ["GLIBC_2.5", "GLIBC_2.17", "GLIBC_2.38"]) if not graph else "GLIBC_2.5" for x in ("va", "vm"))
    isa = sx.bool("isa") if not graph else False
    bad = sx.bool("bad") if not graph else False
    for e in (e1, e2):
        write_elf(f"{e}/liba.so.1", elf(soname="liba.so.1", needed=[G(ab, "libb.so.1")], verneed=[("libc.so.6", [va])], salt=e))
    write_elf(f"{e1}/libb.so.1", elf(soname="libb.so.1", notes=[G(isa, Note(props=[(0xC0008002, 4)]))]))
    m = elf(needed=[G(ma, "liba.so.1"), G(mb, "libb.so.1"), *([] if graph else ["libz.so.1", "libmvec.so.1"])], verneed=[("libc.so.6", [vm])], symbols=[pyinit("m"), Sym("inflate_fast", guard=bad)])
    n = elf(needed=[G(nb, "libb.so.1"), *([] if graph else ["libz.so.1"])], symbols=[pyinit("n")])
    write_elf(f"{e1}/libz.so.1", elf(soname="libz.so.1"))
    write_elf(f"{e2}/libz.so.1", elf(soname="libz.so.1"))
    for e in (e1, e2):
        write_elf(f"{e}/libmvec.so.1", elf(soname="libmvec.so.1", verneed=[("libc.so.6", ["GLIBC_2.27"])]))
    exe = elf(needed=[G(ma, "liba.so.1"), G(nb, "libb.so.1")], interp=f"{e1}/ld-linux-x86-64.so.2")
    fn = wheel_name(plat="manylinux_2_41_x86_64")
    w = {"a": make_wheel(f"{base}/x/in", fn, {f"pkg/m.{SOABI}.so" if target == "host" else "pkg/m.so": m}), "b": make_wheel(f"{base}/y/in", fn, {"pkg/m.so": n, "pkg/n.so": m}),
         "c": make_wheel(f"{base}/in", wheel_name(plat="musllinux_1_2_aarch64"), {"pkg/m.so": elf(arch="aarch64", needed=["libc.musl-aarch64.so.1", "liba.so.1"], symbols=[pyinit("m")])}),
         "d": make_wheel(f"{base}/in", wheel_name(plat="musllinux_1_2_x86_64"), {"pkg/m.so": elf(needed=["libc.musl-x86_64.so.1"], symbols=[pyinit("m")])}),
         "x": make_wheel(f"{base}/in", wheel_name(plat="manylinux_2_41_x86_64"), {"pkg/x": exe, "pkg/n.so": n})}
    set_env("AUDITWHEEL_LD_LIBRARY_PATH", e1 if what == "needs" else e2)

    def do(op):
        from auditwheel.libc import Libc, LibcVersion
        Libc.get_current_version = lambda self: LibcVersion(1, 2)    # of the host: musl 1.2
        if op == "repair":
            return attempt(lambda: repair(w["a"], base + "/out", ldpaths=e1, plat="manylinux_2_38_x86_64"))
        if op == "repair-twin":
            return attempt(lambda: repair([w["b"], w["a"]], base + "/out", ldpaths=e1, plat="auto"))
        return facts({
            "plain": lambda: analyze(w["a"], ldpaths=e1),
            "excluded": lambda: analyze(w["a"], ldpaths=e1, exclude=["libb.so.*"]),
            "envdirs": lambda: analyze(w["a"], ldpaths=e2),
            "nodirs": lambda: analyze(w["a"], ldpaths=""),
            "twin": lambda: analyze(w["b"], ldpaths=e1, base="manylinux_2_17"),
            "musl": lambda: analyze(w["c"], "musl", "aarch64", ldpaths=e1),
            "musl2": lambda: analyze(w["d"], "musl", ldpaths=e1),
            "exe": lambda: analyze(w["x"], ldpaths=e2),
            "host": lambda: analyze(w["a"], ldpaths=None),
            "hostexe": lambda: analyze(w["x"], ldpaths=None),
            "flags": lambda: analyze(w["a"], ldpaths=e1, isa_off=True, graft=False, base="auto"),
        }[op]())

    want = isolated(lambda: do(target))
    for i in range(depth):
        # the operation before is chosen by the solver
        do(sx.conc(sx.choice(f"before{i}", HOST if target == "host" else BEFORE)))
    got = do(target)
    sx.check(got == want, "same as in a new process", lambda: f"{got}, want {want}")
    again = do(target)
    sx.observe("facts", str(got[0]))
    sx.check(again == want, "same again", lambda: f"{again}, want {want}")


def attempt(f):
    try:
        return f()
    except Exception:
        return None
