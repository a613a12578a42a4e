"""auditwheel show."""
import argparse
import json
import os
import re

from harness.common import oracle_policies
from harness.repairworld import Parser
from harness.wheelworld import G, Note, Sym, elf, highest, lowest_of, make_wheel, wheel_name, write_elf
from symx.world import captured

BOUNDS = {
    "quick": "an extension with version needs over 4 levels, Python 2 or 3, UCS2 symbol, PyFPE symbol, black-listed symbols of two libraries (black-listed by every policy, by old ones), "
             "ISA level above the architecture with and without the ISA check, three external libraries (never, sometimes whitelisted, one possibly missing) linked from it "
             "or from one another, version needs of libm and of a library: each present or not; JSON and text at two verbosities",
    "thorough": "every combination in one run",
}
ASSUMPTIONS = ["pyelftools (stand-in validated against it)", "the policy JSON files are data read as shipped"]
LABELS = {"json": ["exit status", "overall tag", "flags", "versioned symbols", "external libraries", "what to eliminate"],
          "text": ["exit status", "overall tag", "versioned symbols", "what to eliminate", "flags"]}
SAMPLE_P = 0.05
VERS = ["GLIBC_2.5", "GLIBC_2.17", "GLIBC_2.38", "GLIBC_9.9"]


def jobs(tier):
    if tier == "quick":
        return [(j, [w]) for j in ("json", "text") for w in ("flags", "links")]
    return [(j, ["all"]) for j in ("json", "text")]


def run(sx, name, params):
    from auditwheel import main_show
    base = os.path.realpath(sx.scratch)
    flags, links = params[0] != "links", params[0] != "flags"
    pols = oracle_policies("glibc", "x86_64")
    low, top = pols[0][0], pols[-1][0]
    rank = {p[0]: i for i, p in enumerate(pols)}
    no = (False,) * 9
    py2, ucs, fpe, isa, isa_off = (sx.bool(x) for x in ("py2", "ucs", "fpe", "isa", "isa_off")) if flags else no[:5]
    blz, blc = sx.bool("blz"), sx.bool("blc") if flags else False
    ma, me, ae, mu = (sx.bool(x) for x in ("m_a", "m_e", "a_e", "a_u")) if links else no[:4]
    ver = sx.choice("ver", VERS)
    av = sx.choice("a_ver", VERS[:3]) if links else VERS[0]
    vm = sx.bool("vm") if links else False
    # sometimes a library is not there
    au = sx.And(ma, mu)
    zsym = sorted(pols[-1][4]["libz.so.1"])[:2]
    csym = sorted(next(p for p in pols if p[0] == "manylinux_2_17_x86_64")[4]["libc.so.6"])[0]
    ext = base + "/ext"
    write_elf(f"{ext}/libmvec.so.1", elf(soname="libmvec.so.1"))
    write_elf(f"{ext}/libz.so.1", elf(soname="libz.so.1"))
    write_elf(f"{ext}/liba.so.1", elf(soname="liba.so.1", needed=[G(ae, "libmvec.so.1"), G(mu, "libu.so.3")], verneed=[("libc.so.6", [av])]))
    syms = [Sym("PyUnicodeUCS2_X", guard=ucs), Sym("PyFPE_jbuf", guard=fpe), *[Sym(z, guard=blz) for z in zsym], Sym(csym, guard=blc),
            Sym("initm", shndx="1", guard=py2), Sym("PyInit_m", shndx="1", guard=sx.Not(py2))]
    fn = wheel_name()
    whl = make_wheel(base + "/in", fn, {"pkg/m.so": elf(
        needed=["libc.so.6", "libm.so.6", "libz.so.1", G(ma, "liba.so.1"), G(me, "libmvec.so.1")], verneed=[("libc.so.6", [ver]), ("libm.so.6", [G(vm, "GLIBC_2.27")])], symbols=syms,
        notes=[G(isa, Note(props=[(0xC0008002, 4)]))])})
    verbose = sx.conc(sx.choice("verbose", [1, 0])) if name == "text" else 1
    args = argparse.Namespace(WHEEL_FILE=whl, JSON=name == "json", DISABLE_ISA_EXT_CHECK=isa_off, ALLOW_PURE_PY_WHEEL=False, LDPATHS=ext, verbose=verbose,
                              cmd="show", prog="auditwheel")
    code, text = captured(main_show.execute, args, Parser())
    sx.check(code == 0, "exit status", lambda: str(code))

    # what there is
    exts = {}
    for p in pols:
        w = p[3]
        e = {} if p[0] == low or w is None else {s: g for s, g in (("liba.so.1", ma), ("libmvec.so.1", sx.Or(me, sx.And(ma, ae))), ("libu.so.3", au)) if s not in w}
        exts[p[0]] = e

    def symp(p):
        vs = [(True, ver), (ma, av), (vm, "GLIBC_2.27")]
        return sx.And(*[sx.Implies(g, True if p[2].get("GLIBC") is None else sx.in_(v, p[2]["GLIBC"])) for g, v in vs])
    sym = highest(sx, pols, symp)
    ucsb = sx.And(py2, ucs)
    ucsp = sx.If(ucsb, low, top)
    isab = sx.And(isa, sx.Not(isa_off))
    mach = sx.If(isab, low, top)
    fpep = sx.If(fpe, low, top)
    bad = {p[0]: {"libz.so.1": [(z, blz) for z in zsym if z in p[4].get("libz.so.1", ())], "libc.so.6": [(csym, blc)] if csym in p[4].get("libc.so.6", ()) else []} for p in pols}
    black = highest(sx, pols, lambda p: sx.And(*[sx.Not(g) for v in bad[p[0]].values() for _, g in v]))
    ref = highest(sx, pols, lambda p: sx.And(*[sx.Not(g) for g in exts[p[0]].values()]))
    overall = lowest_of(sx, pols, sym, ucsp, mach, fpep, black, ref)

    def above(p):
        return sx.lift(lambda o: rank[p[0]] > rank[o], overall)

    if name == "json":
        r = json.loads(text)
        sx.observe("report", sorted((k, str(v)) for k, v in r.items() if k != "external_libs"))
        sx.check(sx.And(sx.eq(r["overall_tag"], overall), sx.eq(r["sym_tag"], sym), r["wheel"] == fn), "overall tag", lambda: f"{r}, want {overall} {sym}")
        sx.check(sx.And(sx.Iff(r["pyfpe"], fpe), sx.Iff(r["ucs2"], ucsb), sx.Iff(r["unsupported_isa"], isab), r["pure"] is False, r["version"] == 1), "flags", lambda: str(r))
        got = r["versioned_symbols"]
        sx.check(sx.And(list(got) in (["libc.so.6"], ["libc.so.6", "libm.so.6"]), sx.Iff("libm.so.6" in got, vm), got.get("libm.so.6") in (None, ["GLIBC_2.27"]), got.get("libc.so.6") == sorted(set(got.get("libc.so.6"))),
                        *[sx.Iff(v in got["libc.so.6"], sx.Or(sx.eq(ver, v), sx.And(ma, sx.eq(av, v)))) for v in VERS], all(v in VERS for v in got["libc.so.6"])),
                 "versioned symbols", lambda: str(got))
        where = {"liba.so.1": f"{ext}/liba.so.1", "libmvec.so.1": f"{ext}/libmvec.so.1", "libu.so.3": None}
        el = r["external_libs"]
        sx.check(sx.And(*[sx.Iff(s in el, g) for s, g in exts[top].items()], all(s in exts[top] and where[s] == v for s, v in el.items())), "external libraries", lambda: str(el))
        up = r["policy_upgrades"]
        oks = [all(k in rank for k in up)]
        for p in pols:
            e = up.get(p[0], {})
            libs = e.get("libs_to_eliminate", [])
            bl = e.get("blacklisted_symbols", {})
            oks += [libs == sorted(libs), all(k in ("libs_to_eliminate", "blacklisted_symbols") for k in e), all(s in exts[p[0]] for s in libs), all(k in bad[p[0]] for k in bl),
                    p[0] not in up or bool(e)]
            oks += [sx.Iff(s in libs, sx.And(above(p), g)) for s, g in exts[p[0]].items()]
            for k, vs in bad[p[0]].items():
                oks += [sx.Iff(v in bl.get(k, ()), sx.And(above(p), g)) for v, g in vs]
                oks.append(all(v in [x for x, _ in vs] for v in bl.get(k, ())))
        sx.check(sx.And(*oks), "what to eliminate", lambda: str(up))
        return
    t = " ".join(text.split())
    m = re.search(r'consistent with the following platform tag: "([^"]*)"', t)
    sx.check(sx.And(t.startswith(fn), sx.eq(m.group(1) if m else None, overall)), "overall tag", lambda: t)
    says = {k: w in t for k, w in (("fpe", "PyFPE_jbuf"), ("ucs", "UCS2"), ("isa", "unsupported ISA"))}
    if verbose:
        sx.check(sx.And(sx.Iff(says["fpe"], fpe), sx.Iff(says["ucs"], ucsb), sx.Iff(says["isa"], isab)), "flags", lambda: t)
    else:
        # the first reason ends the report
        sx.check(sx.And(sx.Iff(says["fpe"], fpe), sx.Iff(says["ucs"], sx.And(ucsb, sx.Not(fpe))), sx.Iff(says["isa"], sx.And(isab, sx.Not(fpe), sx.Not(ucsb)))), "flags", lambda: t)
        end = sx.Or(fpe, ucsb, isab, sx.lift(lambda s: rank[s] < rank[top], sym))
        sx.check(sx.Implies(end, "In order to achieve the tag" not in t), "what to eliminate", lambda: t)
        if sx.conc(end):
            return
    vs = t.split("in these system-provided shared libraries: ")[1].split("}")
    vs = {re.search(r"(\S+) with versions", x).group(1): set(re.findall(r"'([^']*)'", x)) for x in vs if " with versions " in x}
    sx.check(sx.And(*[sx.Iff(v in vs.get("libc.so.6", ()), sx.Or(sx.eq(ver, v), sx.And(ma, sx.eq(av, v)))) for v in VERS],
                    sx.Iff(vs.get("libm.so.6") == {"GLIBC_2.27"}, vm), all(k in ("libc.so.6", "libm.so.6") for k in vs)), "versioned symbols", lambda: t)
    parts = t.split("In order to achieve the tag platform tag ")[1:]
    libs, bl = {}, {}
    for part in parts:
        tag = re.match(r"'([^']*)'", part).group(1)
        rest = part.split("will need to be eliminated:")[1]
        if "black-listed symbol" in part:
            bl[tag] = {k: v.replace(",", " ").split() for k, v in re.findall(r"From (\S+): ((?:\S+, )*\S+)", rest)}
        else:
            libs[tag] = rest.replace(",", " ").split()
    oks = [all(k in rank for k in (*libs, *bl))]
    for p in pols:
        ls, b = libs.get(p[0], []), bl.get(p[0], {})
        oks += [sx.Iff(s in ls, sx.And(above(p), g)) for s, g in exts[p[0]].items()]
        oks += [all(s in exts[p[0]] for s in ls), all(k in bad[p[0]] for k in b)]
        for k, vs in bad[p[0]].items():
            oks += [sx.Iff(v in b.get(k, ()), sx.And(above(p), g)) for v, g in vs]
    sx.check(sx.And(*oks), "what to eliminate", lambda: t)
