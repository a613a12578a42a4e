"""Repaired wheels are self-contained."""
import os

from harness.common import oracle_policies
from harness.repairworld import Refused, elf_info, grafted_name, leads_to, outputs, plat_tags, repair, unpack
from harness.wheelworld import G, elf, make_wheel, pyinit, wheel_name, write_elf

BOUNDS = {
    "quick": "two ELF files of the wheel in different directories (the second an extension or a library), four external libraries (one found through a symlink, one "
             "whitelisted by some policies, one by all, one that may be missing) with any links from the files to three of them and among the libraries, cycles included; "
             "three requested platforms; two libraries of one name in different directories; one library under two names; a wheel whose library directory (beside the package or in it) has files already that need "
             "each other and what is outside; with and without strip and --only-plat",
    "thorough": "all links between the libraries",
}
ASSUMPTIONS = ["patchelf does what its options say (stand-in validated against the real one)", "libpython is not among the libraries"]
LABELS = {"graph": ["refused iff a library is missing", "files of the wheel", "grafted copies", "nothing else"],
          "twins": ["files of the wheel", "grafted copies", "nothing else"], "names": ["files of the wheel", "grafted copies", "nothing else"],
          "again": ["files of the wheel", "grafted copies", "nothing else"]}
SAMPLE_P = 0.2
SAMPLES = {"quick": 80, "thorough": 300}


def jobs(tier):
    q = tier == "quick"
    js = []
    for second in ("ext", "lib"):
        for plat in ("auto", "manylinux_2_17_x86_64", "manylinux2014_x86_64", "manylinux_2_28_x86_64"):
            js.append(("graph", [second, plat, not q]))
    return js + [("twins", []), ("names", []), ("again", [".libs"]), ("again", ["/lib"])]


def run(sx, name, params):
    base = os.path.realpath(sx.scratch)
    {"graph": graph, "twins": twins, "names": names, "again": again}[name](sx, base, *params)


def check_wheel(sx, base, files, refs, renamed, whl_fn, libdir="pkg.libs"):
    """files: {path in wheel: [(guard, needed)]} before; refs: {path: {soname: guard that it is external for the file}};
    renamed: {soname: source file}; whl_fn: the output"""
    root = base + "/un"
    got = unpack(f"{base}/out/{whl_fn}", root)
    new = {so: grafted_name(src) for so, src in renamed.items()}
    oks = []
    for fn, deps in files.items():
        inf = elf_info(got[fn])
        oks.append(len(inf.needed) == len(set(inf.needed)))
        for g, n in deps:
            ext = refs[fn].get(n, False)
            oks.append(sx.Iff(n in inf.needed, sx.And(g, sx.Not(ext))))
            if n in new:
                oks.append(sx.Implies(sx.And(g, ext), new[n] in inf.needed))
        oks.append(all(x in [n for _, n in deps] or x in new.values() for x in inf.needed))
        some = sx.Or(*[sx.And(g, refs[fn].get(n, False)) for g, n in deps])
        rp = inf.rpath if inf.rpath is not None else inf.runpath
        oks.append(sx.Implies(some, leads_to(rp, fn, root, libdir)))
    sx.check(sx.And(*oks), "files of the wheel", lambda: str({fn: elf_info(got[fn]) for fn in files}))
    return root, got, new


def graph(sx, base, second, plat, full):
    ext = base + "/ext"
    only = sx.conc(sx.bool("only_plat")) if plat.endswith("2_28_x86_64") else False
    strip = second == "lib"
    so = {"a": "liba.so.1", "b": "libb.so.2", "e": "libmvec.so.1", "z": "libz.so.1", "u": "libu.so.3"}
    src = {"a": f"{ext}/liba.so.1", "b": f"{ext}/real/libb-2.3.so", "e": f"{ext}/libmvec.so.1", "z": f"{ext}/libz.so.1"}
    edge = {}

    def link(s, *ts):
        for t in ts:
            edge[s, t] = sx.bool(f"{s}_{t}")
    link("m", "a", "e", "z")
    link("n", "a", "b")
    link("a", "b", "e", "u")
    link("b", "a", *(["z", "u"] if full else []))
    link("e", *(["b"] if full else []))

    def needed(s):
        return [G(g, so[t]) for (x, t), g in edge.items() if x == s]
    for k, p in src.items():
        write_elf(p, elf(soname=so[k], needed=needed(k), rpath="/nowhere" if k == "a" else None))
    os.symlink("real/libb-2.3.so", f"{ext}/libb.so.2")
    fns = {"m": "pkg/m.so", "n": "pkg/deep/er/n.so" if second == "ext" else "pkg/libn.so.1"}
    whl = make_wheel(base + "/in", wheel_name(), {
        fns["m"]: elf(needed=["libc.so.6", *needed("m")], symbols=[pyinit("m")]),
        fns["n"]: elf(needed=needed("n"), symbols=[pyinit("n")] if second == "ext" else [], rpath=f"{ext}:$ORIGIN"), "pkg/__init__.py": ""})
    try:
        repair(whl, base + "/out", plat, ldpaths=ext, only_plat=only, strip=strip)
        err = None
    except ValueError as e:
        err = str(e)
    pols = oracle_policies("glibc", "x86_64")
    outs = [f for f in outputs(base + "/out") if f.endswith(".whl")] if err is None else []
    if err is None:
        tags = plat_tags(outs[0])
        tag = [p[0] for p in pols if p[0] in tags or set(p[5]) & set(tags)][-1]
        wl = next(p[3] for p in pols if p[0] == tag)
    else:
        # refused: whichever policy it was for, the libraries that may be missing are the same
        wl = {"libz.so.1"}
    hidden = {k for k in so if so[k] in wl}
    reach = {}
    for f in fns:
        r = {t: sx.And(edge.get((f, t), False), t not in hidden) for t in so}
        for _ in range(4):
            r = {t: sx.Or(r[t], *[sx.And(r[s], g, t not in hidden) for (s, u), g in edge.items() if u == t and s in r]) for t in so}
        reach[f] = r
    miss = sx.Or(*[reach[f]["u"] for f in fns])
    sx.observe("err", err)
    # libmvec may or may not hide links of its own; it has none unless full
    sx.check(sx.Iff(err is not None, miss) if not full else sx.Implies(miss, err is not None), "refused iff a library is missing", lambda: f"{err}")
    if err is not None:
        for x in ("files of the wheel", "grafted copies", "nothing else"):
            sx.reach(x)
        return
    whfiles = {fns[f]: [(g, so[t]) for (s, t), g in edge.items() if s == f] for f in fns}
    whfiles[fns["m"]].append((True, "libc.so.6"))
    refs = {fns[f]: {so[t]: t not in hidden for t in so} for f in fns}
    renamed = {so[k]: src[k] for k in src if k not in hidden}
    root, got, new = check_wheel(sx, base, whfiles, refs, renamed, outs[0])
    libs = {n[len("pkg.libs/"):]: p for n, p in got.items() if n.startswith("pkg.libs/")}
    oks = []
    for k in src:
        if k in hidden:
            continue
        there = new[so[k]] in libs
        oks.append(sx.Iff(there, sx.Or(*[reach[f][k] for f in fns])))
        if not there:
            continue
        inf = elf_info(libs[new[so[k]]])
        oks.append(inf.soname == new[so[k]])
        ren = False
        for (s, t), g in edge.items():
            if s != k:
                continue
            w = so[t] if t in hidden else new.get(so[t])
            oks.append(sx.Iff(w in inf.needed, g))
            if t not in hidden:
                ren = sx.Or(ren, g)
        oks.append(all(x in new.values() or x in [so[h] for h in hidden] for x in inf.needed))
        rp = inf.rpath if inf.rpath is not None else inf.runpath
        oks.append(sx.Implies(ren, leads_to(rp, "pkg.libs/x", root, "pkg.libs")))
        oks.append(rp is None or "/nowhere" not in rp)
    sx.check(sx.And(*oks), "grafted copies", lambda: str({n: elf_info(p) for n, p in libs.items()}))
    sx.observe("libs", sorted(libs) if sx.sym is None else len(libs))
    sx.check(all(x in new.values() for x in libs) and set(got) - {"pkg.libs/" + x for x in libs} == {
        *whfiles, "pkg/__init__.py", "pkg-1.0.dist-info/WHEEL", "pkg-1.0.dist-info/METADATA", "pkg-1.0.dist-info/RECORD"}, "nothing else", lambda: sorted(got))


def twins(sx, base):
    """two libraries of one name in different directories, each used by its own file"""
    e1, e2, e3 = (f"{base}/e{i}" for i in (1, 2, 3))
    g = {k: sx.bool(k) for k in ("t1_v", "t2_v", "n_t", "m_v")}
    same = sx.conc(sx.bool("same"))
    write_elf(f"{e1}/libt.so.1", elf(soname="libt.so.1", needed=[G(g["t1_v"], "libv.so.1")], salt="one"))
    write_elf(f"{e2}/libt.so.1", elf(soname="libt.so.1", needed=[G(g["t2_v"], "libv.so.1")], salt="two"))
    write_elf(f"{e3}/libv.so.1", elf(soname="libv.so.1"))
    whl = make_wheel(base + "/in", wheel_name(), {
        "pkg/m.so": elf(needed=["libt.so.1", G(g["m_v"], "libv.so.1")], symbols=[pyinit("m")], rpath=e1),
        "pkg/n.so": elf(needed=[G(g["n_t"], "libt.so.1")], symbols=[pyinit("n")], rpath=e1 if same else e2)})
    repair(whl, base + "/out", "manylinux_2_17_x86_64", ldpaths=e3)
    root = base + "/un"
    got = unpack(f"{base}/out/{outputs(base + '/out')[0]}", root)
    t1, t2, v = (grafted_name(f"{e}/{n}") for e, n in ((e1, "libt.so.1"), (e2, "libt.so.1"), (e3, "libv.so.1")))
    m, n = elf_info(got["pkg/m.so"]), elf_info(got["pkg/n.so"])
    sx.check(sx.And(sx.eq(sorted(m.needed), sx.If(g["m_v"], sorted([t1, v]), [t1])),
                    sx.eq(n.needed, sx.If(g["n_t"], [t1 if same else t2], []))), "files of the wheel", lambda: f"{m} {n}")
    libs = {k[9:]: p for k, p in got.items() if k.startswith("pkg.libs/")}
    two = sx.And(g["n_t"], not same)
    oks = [t1 in libs, sx.Iff(t2 in libs, two), sx.Iff(v in libs, sx.Or(g["m_v"], g["t1_v"], sx.And(two, g["t2_v"])))]
    for t, k in ((t1, "t1_v"), (t2, "t2_v")):
        if t in libs:
            inf = elf_info(libs[t])
            oks += [inf.soname == t, sx.eq(inf.needed, sx.If(g[k], [v], []))]
            rp = inf.rpath if inf.rpath is not None else inf.runpath
            oks.append(sx.Implies(g[k], leads_to(rp, "pkg.libs/x", root, "pkg.libs")))
    sx.check(sx.And(*oks), "grafted copies", lambda: str({k: elf_info(p) for k, p in libs.items()}))
    sx.check(set(libs) <= {t1, t2, v}, "nothing else", lambda: sorted(libs))


def names(sx, base):
    """one library under two names"""
    ext = base + "/ext"
    g = {k: sx.bool(k) for k in ("m1", "m2", "n1", "n2", "w1", "w2", "w", "back")}
    write_elf(f"{ext}/libt.so.1.0", elf(soname="libt.so.1", needed=[G(g["back"], "libw.so.1")]))
    os.symlink("libt.so.1.0", f"{ext}/libt.so.1")
    os.symlink("libt.so.1", f"{ext}/libt.so")
    pair = lambda a, b: [G(g[a], "libt.so.1"), G(g[b], "libt.so")]  # noqa: E731
    write_elf(f"{ext}/libw.so.1", elf(soname="libw.so.1", needed=pair("w1", "w2")))
    whl = make_wheel(base + "/in", wheel_name(), {
        "pkg/m.so": elf(needed=[*pair("m1", "m2"), G(g["w"], "libw.so.1")], symbols=[pyinit("m")]),
        "pkg/n.so": elf(needed=pair("n1", "n2"), symbols=[pyinit("n")])})
    repair(whl, base + "/out", "manylinux_2_17_x86_64", ldpaths=ext)
    root = base + "/un"
    got = unpack(f"{base}/out/{outputs(base + '/out')[0]}", root)
    t, w = grafted_name(f"{ext}/libt.so.1.0"), grafted_name(f"{ext}/libw.so.1")
    m, n = elf_info(got["pkg/m.so"]), elf_info(got["pkg/n.so"])
    sx.check(sx.And(sx.Iff(t in m.needed, sx.Or(g["m1"], g["m2"])), sx.Iff(w in m.needed, g["w"]), set(m.needed) <= {t, w},
                    sx.Iff(t in n.needed, sx.Or(g["n1"], g["n2"])), set(n.needed) <= {t}), "files of the wheel", lambda: f"{m} {n}")
    libs = {k[9:]: p for k, p in got.items() if k.startswith("pkg.libs/")}
    hast = sx.Or(g["m1"], g["m2"], g["n1"], g["n2"], sx.And(g["w"], sx.Or(g["w1"], g["w2"])))
    hasw = sx.Or(g["w"], sx.And(hast, g["back"]))
    oks = [sx.Iff(t in libs, hast), sx.Iff(w in libs, hasw)]
    for x, y, c in ((t, w, g["back"]), (w, t, sx.Or(g["w1"], g["w2"]))):
        if x in libs:
            inf = elf_info(libs[x])
            rp = inf.rpath if inf.rpath is not None else inf.runpath
            oks += [inf.soname == x, sx.Iff(y in inf.needed, c), set(inf.needed) <= {y}, sx.Implies(c, leads_to(rp, "pkg.libs/x", root, "pkg.libs"))]
    sx.check(sx.And(*oks), "grafted copies", lambda: str({k: elf_info(p) for k, p in libs.items()}))
    sx.check(set(libs) <= {t, w}, "nothing else", lambda: sorted(libs))


def again(sx, base, sdir):
    """a wheel that was repaired before, and something of which still needs what is outside"""
    ext, d = base + "/ext", "pkg" + sdir
    up = "$ORIGIN/../pkg.libs" if sdir == ".libs" else "$ORIGIN/lib"
    so = {"v": "libv-0123abcd.so.1", "x": "libx-89abcdef.so", "b": "libb.so.1", "c": "libc2.so.1"}
    edge = {(s, t): sx.bool(f"{s}_{t}") for s, t in ("mv", "mb", "vx", "vb", "vc", "xb", "bc", "cb")}

    def needed(s):
        return [G(g, so[t]) for (x, t), g in edge.items() if x == s]
    for k in "bc":
        write_elf(f"{ext}/{so[k]}", elf(soname=so[k], needed=needed(k)))
    fns = {"m": "pkg/m.so", "v": f"{d}/{so['v']}", "x": f"{d}/{so['x']}"}
    whl = make_wheel(base + "/in", wheel_name(), {
        fns["m"]: elf(needed=["libc.so.6", *needed("m")], symbols=[pyinit("m")], rpath=up),
        fns["v"]: elf(soname=so["v"], needed=["libc.so.6", *needed("v")], rpath="$ORIGIN"),
        fns["x"]: elf(soname=so["x"], needed=["libc.so.6", *needed("x")])})
    repair(whl, base + "/out", "manylinux_2_17_x86_64", ldpaths=ext, lib_sdir=sdir)
    (out,) = outputs(base + "/out")
    whfiles = {fns[f]: [(g, so[t]) for (s, t), g in edge.items() if s == f] + [(True, "libc.so.6")] for f in fns}
    refs = {fns[f]: {so[t]: True for t in "bc"} for f in fns}
    renamed = {so[k]: f"{ext}/{so[k]}" for k in "bc"}
    root, got, new = check_wheel(sx, base, whfiles, refs, renamed, out, d)
    # what the files of the wheel reach, by whatever route
    direct = {"b": sx.Or(edge["m", "b"], edge["v", "b"], edge["x", "b"]), "c": edge["v", "c"]}
    have = {"b": sx.Or(direct["b"], sx.And(direct["c"], edge["c", "b"])), "c": sx.Or(direct["c"], sx.And(direct["b"], edge["b", "c"]))}
    old = {so["v"], so["x"]}
    libs = {n[len(d) + 1:]: p for n, p in got.items() if n.startswith(d + "/") and n[len(d) + 1:] not in old}
    oks = []
    for k, o in (("b", "c"), ("c", "b")):
        oks.append(sx.Iff(new[so[k]] in libs, have[k]))
        if new[so[k]] in libs:
            inf = elf_info(libs[new[so[k]]])
            oks += [inf.soname == new[so[k]], sx.eq(inf.needed, sx.If(edge[k, o], [new[so[o]]], []))]
            rp = inf.rpath if inf.rpath is not None else inf.runpath
            oks.append(sx.Implies(edge[k, o], leads_to(rp, d + "/x", root, d)))
    for f in "vx":
        oks.append(elf_info(got[fns[f]]).soname == so[f])
    sx.check(sx.And(*oks), "grafted copies", lambda: str({k: elf_info(p) for k, p in libs.items()}))
    sx.check(set(libs) <= set(new.values()), "nothing else", lambda: sorted(libs))
