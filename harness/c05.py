"""The overall tag."""
import os

from harness.common import oracle_policies
from harness.wheelworld import G, Note, Sym, analyze, elf, highest, lowest_of, make_wheel, wheel_name, write_elf

BOUNDS = {
    "quick": "an extension (Python 2 or 3) with version needs over 6 levels, UCS2, PyFPE, black-listed symbol and ISA level each present or not, and links to three external "
             "libraries (never, sometimes and always whitelisted) with version needs over 4 levels, the first may need the others; grafting allowed or not; no platform "
             "requested, auto, a policy and an alias; one library under two names, neither or one whitelisted by some policies; five libraries, some of them not there; a second file with a library of the same name elsewhere",
    "thorough": "the same with version needs over 6 levels in every file, every link between the libraries, and six platform requests with grafting or not",
}
ASSUMPTIONS = ["pyelftools (stand-in validated against it)", "the policy JSON files are data read as shipped"]
LABELS = {"links": ["overall tag", "symbol constraint", "graft constraint"]}
LABELS["flags"] = LABELS["links"]
LABELS["links"] = [*LABELS["links"], "versioned symbols"]
LABELS["alias"] = LABELS["twins"] = LABELS["missing"] = ["symbol constraint"]
SAMPLE_P = 0.05

BASES = [None, "auto", "manylinux_2_17", "manylinux_2_28", "manylinux2014", "manylinux1"]
VERS4 = ["GLIBC_2.5", "GLIBC_2.17", "GLIBC_2.38", "GLIBC_9.9"]
VERS = ["GLIBC_2.5", "GLIBC_2.12", "GLIBC_2.17", "GLIBC_2.27", "GLIBC_2.38", "GLIBC_9.9"]


def jobs(tier):
    wide = tier != "quick"
    js = [("links", [b, gr, wide]) for b, gr in (("auto", True), ("manylinux2014", True), (None, False))]
    if wide:
        js += [("links", [b, gr, wide]) for b in BASES for gr in (True, False) if ("links", [b, gr, wide]) not in js]
    js += [("flags", [b, gr, wide]) for b, gr in ((None, True), ("auto", True), (None, False), ("manylinux_2_28", True))]
    return js + [("alias", ["libt.so.1", "libt.so"]), ("alias", ["libmvec.so.1", "libt.so"]), ("twins", []), ("missing", [])]


def vpol(sx, pols, syms):
    """highest policy allowing all (guard, version symbol)"""
    def ok(p):
        allowed = p[2].get("GLIBC")
        return sx.And(*[sx.Implies(g, True if allowed is None else sx.in_(v, allowed)) for g, v in syms])
    return highest(sx, pols, ok)


def run(sx, name, params):
    base = os.path.realpath(sx.scratch)
    pols = oracle_policies("glibc", "x86_64")
    rank = {p[0]: i for i, p in enumerate(pols)}
    low, top = pols[0][0], pols[-1][0]
    ext = base + "/ext"
    if name in ("alias", "twins"):
        special(sx, name, base, pols, *params)
        return
    if name == "missing":
        missing(sx, base, pols)
        return
    req, graft, wide = params
    links = name == "links"
    flags = name == "flags"

    so = {"a": "liba.so.1", "e": "libmvec.so.1", "z": "libz.so.1"}
    edge = {}
    if links:
        for s, t in (("m", "a"), ("m", "e"), ("a", "e"), ("e", "a"), ("a", "z")):
            if wide or s != "e":
                edge[s, t] = sx.bool(f"{s}_{t}")
    else:
        edge["m", "a"], edge["m", "e"] = False, sx.bool("m_e")
    bl = sx.bool("bl") if flags else False
    edge["m", "z"] = True if flags else wide and sx.bool("m_z")
    ver = {k: sx.choice(f"v_{k}", VERS if wide or flags else VERS4 if k != "m" else VERS[3:5]) for k in (("m", "a", "e") if links else ("m",))}
    ver["z"] = "GLIBC_9.9"        # whitelisted everywhere: does not count

    def needed(s):
        return [G(g, so[t]) for (x, t), g in edge.items() if x == s]

    def verneed(s):
        return [("libc.so.6", [ver[s]])] if s in ver else []
    for k in so:
        write_elf(f"{ext}/{so[k]}", elf(soname=so[k], needed=needed(k), verneed=verneed(k)))
    syms = []
    py2 = ucs = fpe = isa = False
    if flags:
        py2, ucs, fpe, isa = (sx.bool(x) for x in ("py2", "ucs", "fpe", "isa"))
        bad = sorted(pols[-1][4]["libz.so.1"])[0]
        syms = [Sym("PyUnicodeUCS2_X", guard=ucs), Sym("PyFPE_jbuf", guard=fpe), Sym(bad, guard=bl),
                Sym("initm", shndx="1", guard=py2), Sym("PyInit_m", shndx="1", guard=sx.Not(py2))]
    else:
        syms = [Sym("PyInit_m", shndx="1")]
    whl = make_wheel(base + "/in", wheel_name(), {
        "pkg/m.so": elf(needed=["libc.so.6", *needed("m")], verneed=verneed("m"), symbols=syms,
                        notes=[G(isa, Note(props=[(0xC0008002, 4)]))] if flags else [])})
    info = analyze(whl, "glibc", "x86_64", graft=graft, base=req, ldpaths=ext)

    def externals(p):
        vis = {k: p[3] is not None and so[k] not in p[3] for k in so}
        r = {t: sx.And(edge.get(("m", t), False), vis[t]) for t in so}
        for _ in range(2):
            r = {t: sx.Or(r[t], *[sx.And(r[s], g, vis[t]) for (s, u), g in edge.items() if u == t and s != "m"]) for t in so}
        return r
    exts = {p[0]: externals(p) for p in pols}
    # the best any policy gets with the libraries that would be grafted for it
    sym, each = low, []
    for p in pols[1:]:
        v = vpol(sx, pols, [(True, ver["m"]), *[(g, ver[k]) for k, g in exts[p[0]].items() if k in ver]])
        v = lowest_of(sx, pols, v, p[0])
        each.append((p, v))
        sym = sx.lift(lambda a, b: a if rank[a] >= rank[b] else b, sym, v)
    sx.check(sx.eq(info.sym_policy.name, sym), "symbol constraint", lambda: f"{info.sym_policy.name}, want {sym}")
    if name == "links":
        # what is reported is what one of the policies that get there has to offer
        got = info.versioned_symbols["libc.so.6"]
        sets = {}
        for p, v in each:
            sets.setdefault(frozenset(so[k] in p[3] for k in so), []).append((p, v))
        opts = []
        for same in sets.values():
            e = exts[same[0][0][0]]
            opts.append(sx.And(sx.Or(*[sx.eq(v, sym) for _, v in same]),
                               *[sx.Iff(sx.in_(x, got), sx.Or(sx.eq(ver["m"], x), *[sx.And(g, sx.eq(ver[k], x)) for k, g in e.items() if k in ver])) for x in VERS]))
        sx.check(sx.And(len(info.versioned_symbols) == 1, sx.Or(*opts)), "versioned symbols", lambda: str(info.versioned_symbols))
    count = {t: sum_(sx, e.values()) for t, e in exts.items()}
    if req is None:
        graftp = top
    else:
        if req == "auto":
            least = count[pols[1][0]]
            for p in pols[2:]:
                least = sx.min(least, count[p[0]])
        else:
            r = next(p[0] for p in pols if p[0] == f"{req}_x86_64" or f"{req}_x86_64" in p[5])
            least = count[r]
        graftp = highest(sx, pols, lambda p: count[p[0]] <= least)
        sx.check(sx.eq(info.graft_policy.name, graftp), "graft constraint", lambda: f"{info.graft_policy.name}, want {graftp}")
    if req is None:
        sx.reach("graft constraint")
    ref = highest(sx, pols, lambda p: count[p[0]] == 0) if not graft else top
    black = highest(sx, pols, lambda p: not (set(p[4].get("libz.so.1", ())) & {bad}) if flags else True)
    black = sx.If(bl, black, top)
    want = lowest_of(sx, pols, sym, sx.If(sx.And(py2, ucs), low, top), sx.If(fpe, low, top), black, sx.If(isa, low, top), graftp, ref)
    sx.observe("overall", info.overall_policy.name)
    sx.check(sx.eq(info.overall_policy.name, want), "overall tag", lambda: f"{info.overall_policy.name}, want {want}")


def sum_(sx, gs):
    n = 0
    for g in gs:
        n = n + sx.If(g, 1, 0)
    return n


def missing(sx, base, pols):
    """libraries that are not found or not ELF files hide nothing"""
    ver = {k: sx.choice(f"v_{k}", VERS[1:]) for k in "bd"}
    g = {k: sx.bool(k) for k in "abcde"}
    for k in "bd":
        write_elf(f"{base}/ext/lib{k}.so", elf(verneed=[("libc.so.6", [ver[k]])] if k == "b" else [("libc.so.6", ["GLIBC_2.5", ver[k]])], salt=k))
    write_elf(f"{base}/ext/libc.so", elf(salt="c"))        # no versions at all
    need = [G(g[k], f"lib{k}.so") for k in "abcde"]
    info = analyze(make_wheel(base + "/in", wheel_name(), {"pkg/m.so": elf(needed=need, symbols=[Sym("PyInit_m", shndx="1")])}), "glibc", "x86_64",
                   ldpaths=base + "/ext")
    want = vpol(sx, pols, [(g[k], ver[k]) for k in "bd"])
    sx.check(sx.eq(info.sym_policy.name, want), "symbol constraint", lambda: f"{info.sym_policy.name}, want {want}")


def special(sx, name, base, pols, *names):
    """the libraries grafted count, under whatever name"""
    e1, e2 = base + "/e1", base + "/e2"
    ver = {k: sx.choice(f"v_{k}", VERS) for k in ("x", "y")}
    g = {k: sx.bool(k) for k in ("m1", "m2", "n1", "n2")}
    write_elf(f"{e1}/libt.so.1.0", elf(verneed=[("libc.so.6", [ver["x"]])], salt="x"))
    os.symlink("libt.so.1.0", f"{e1}/{names[0] if names else 'libt.so.1'}")
    if name == "alias":
        os.symlink(names[0], f"{e1}/{names[1]}")
        dirs = (e1, e1)
    else:
        write_elf(f"{e2}/libt.so.1", elf(verneed=[("libc.so.6", [ver["y"]])], salt="y"))
        names, dirs = ("libt.so.1", "libt.so.1"), (e1, e2)
    files = {}
    for i, m in enumerate("mn"):
        need = [G(g[m + "1"], names[0])] + ([G(g[m + "2"], names[1])] if name == "alias" else [])
        files[f"pkg/{m}.so"] = elf(needed=need, symbols=[Sym(f"PyInit_{m}", shndx="1")], rpath=dirs[i])
    info = analyze(make_wheel(base + "/in", wheel_name(), files), "glibc", "x86_64")
    if name == "alias":
        want = pols[0][0]
        rank = {p[0]: i for i, p in enumerate(pols)}
        for p in pols[1:]:
            hit = sx.Or(*[v for k, v in g.items() if names[int(k[1]) - 1] not in p[3]])
            v = lowest_of(sx, pols, vpol(sx, pols, [(hit, ver["x"])]), p[0])
            want = sx.lift(lambda a, b: a if rank[a] >= rank[b] else b, want, v)
    else:
        want = vpol(sx, pols, [(g["m1"], ver["x"]), (g["n1"], ver["y"])])
    sx.observe("sym", info.sym_policy.name)
    sx.check(sx.eq(info.sym_policy.name, want), "symbol constraint", lambda: f"{info.sym_policy.name}, want {want}")
