"""Excluded libraries."""
import os
from pathlib import Path

from harness.common import wheel_policies
from harness.repairworld import elf_info, grafted_name, leads_to, outputs, repair, unpack
from harness.wheelworld import elf, make_wheel, pyinit, wheel_name
from symx.world import Elf, G, write_elf

BOUNDS = {
    "quick": "a file and 3 libraries with every set of links between them (no library needs itself), the third one external, missing, in the wheel, "
             "whitelisted or found through a link; subsets of 3 of 10 exclude patterns (name, prefix glob, set, single character, resolved path, path glob, "
             "near misses in case, prefix and end); repairs of a wheel of an extension and a library with three external libraries, six links (thorough: nine), any of 3 exclusions",
    "thorough": "every subset of 5 patterns",
}
ASSUMPTIONS = ["needed names and places are fixed; one place per name"]
LABELS = {"ldd": ["excluded from needed", "tree", "libraries as without exclusion", "external references"], "repair": ["needed of the wheel's files", "grafted copies"]}
SAMPLE_P = 0.1


def jobs(tier):
    sets = [[9, 2, 7], [3, 4, 5], [1, 0, 6], [4, 8]] if tier == "quick" else [[0, 1, 2, 3, 4], [3, 4, 5, 6, 7], [0, 2, 4, 6, 7], [1, 2, 3, 8, 9]]
    return [("repair", [p, tier]) for p in (("auto",) if tier == "quick" else ("manylinux_2_17_x86_64", "auto"))] + [("ldd", [kind, s]) for kind in ("ext", "missing", "wheel", "white", "link") for s in sets]


def run(sx, name, params):
    if name == "repair":
        repaired(sx, os.path.realpath(sx.scratch), *params)
        return
    from auditwheel.lddtree import ldd
    kind, which = params
    base = os.path.realpath(sx.scratch)
    ext, real, whl = (os.path.join(base, d) for d in ("ext", "real.d", "w"))
    for d in (ext, real, whl + "/pkg", whl + "/pkg.libs"):
        os.makedirs(d)
    third = {"white": "libz.so.1"}.get(kind, "libc-x.so.3")
    names = ["liba.so.1", "libb.so.1", third]
    where = [os.path.join(ext, n) for n in names]
    if kind == "missing":
        where[2] = None
    elif kind == "wheel":
        where[2] = os.path.join(whl, "pkg.libs", third)
    elif kind == "link":
        where[2] = os.path.join(real, "libc-real.so.3.1")
    # (pattern, which of the three it is to match)
    z = third == "libz.so.1"
    pats = [("liba.so.1", (1, 0, 0)), ("libb*", (0, 1, 0)), ("lib[!a]*.so.*", (0, 1, 1)), ("lib?.so.1", (1, 1, z)),
            (where[2] or "/nowhere/libc-x.so.3", (0, 0, where[2] is not None)), ("*/real.d/*", (0, 0, kind == "link")),
            ("LIBA.so.1", (0, 0, 0)), ("a.so.1", (0, 0, 0)), ("lib*.so", (0, 0, 0)), ("liba.so", (0, 0, 0))]
    on = {i: sx.bool(f"pat{i}") for i in which}
    exclude = sx.frozen([(on[i], pats[i][0]) for i in which])
    out = [sx.Or(*[on[i] for i in which if pats[i][1][k]]) for k in range(3)]
    e0 = [sx.bool(f"e{i}") for i in range(3)]
    ee = [[sx.bool(f"d{i}{j}") if i != j else False for j in range(3)] for i in range(3)]
    for i in range(3):
        if where[i] is not None:
            write_elf(where[i], Elf(needed=[G(ee[i][j], names[j]) for j in range(3) if j != i]))
        else:
            ee[i] = [False] * 3
    if kind == "link":
        os.symlink("../real.d/libc-real.so.3.1", os.path.join(ext, third))
    main = os.path.join(whl, "pkg", "m.so")
    write_elf(main, Elf(needed=[G(e0[i], names[i]) for i in range(3)], rpath="$ORIGIN/../pkg.libs"))
    t = ldd(Path(main), ldpaths={"conf": [ext], "env": [], "interp": []}, exclude=exclude)
    keep = [sx.Not(o) for o in out]
    sx.observe("needed", list(t.needed))
    sx.check(sx.And(*[sx.Iff(sx.in_(names[i], t.needed), sx.And(e0[i], keep[i])) for i in range(3)], all(n in names for n in t.needed)),
             "excluded from needed", lambda: t.needed)
    reach = [sx.And(e0[i], keep[i]) for i in range(3)]
    for _ in range(2):
        reach = [sx.Or(reach[i], *[sx.And(reach[j], ee[j][i], keep[i]) for j in range(3) if j != i]) for i in range(3)]
    sx.check(sx.And(*[sx.Iff(sx.in_(names[i], t.libraries), reach[i]) for i in range(3)], all(k in names for k in t.libraries)), "tree",
             lambda: sorted(t.libraries))
    ok = []
    for i, n in enumerate(names):
        if n in t.libraries:
            lib = t.libraries[n]
            ok.append(sx.eq(None if lib.realpath is None else str(lib.realpath), where[i]))
            for j in range(3):
                if j != i:
                    ok.append(sx.Iff(sx.in_(names[j], lib.needed), sx.And(ee[i][j], keep[j])))
    sx.check(sx.And(*ok), "libraries as without exclusion", lambda: str(t.libraries))
    wp = wheel_policies(sx, "glibc", "x86_64")
    refs = wp.lddtree_external_references(t, Path(whl))
    ok = []
    for tag in ("manylinux_2_5_x86_64", "manylinux_2_28_x86_64"):
        got = refs[tag].libs
        vis = [True, True, not z]
        r = [sx.And(e0[i], keep[i], vis[i]) for i in range(3)]
        for _ in range(2):
            r = [sx.Or(r[i], *[sx.And(r[j], ee[j][i], keep[i], vis[i]) for j in range(3) if j != i]) for i in range(3)]
        for i in range(3):
            ok.append(sx.Iff(sx.in_(names[i], got), sx.And(r[i], not (kind == "wheel" and i == 2))))
        ok.append(all(k in names for k in got))
    sx.check(sx.And(*ok), "external references", lambda: str({k: v.libs for k, v in refs.items()}))


def repaired(sx, base, plat, tier):
    """what is excluded keeps its name and stays outside, in the wheel's files and in the grafted copies"""
    ext, real = base + "/ext", base + "/real.d"
    so = {"a": "liba.so.1", "b": "libb.so.1", "c": "libc-x.so.3"}
    src = {"a": f"{ext}/liba.so.1", "b": f"{ext}/libb.so.1", "c": f"{real}/libc-real.so.3.1"}
    edge = {(k[0], k[1]): sx.bool(k) for k in (("ma", "mb", "na", "nb", "ab", "bc") if tier == "quick" else ("ma", "mb", "mc", "na", "nb", "ab", "ac", "bc", "ca"))}

    def needed(s):
        return [G(g, so[t]) for (x, t), g in edge.items() if x == s]
    # c may be missing: then whatever needs it has to exclude it
    gone = sx.conc(sx.bool("gone"))
    for k in "abc":
        if k != "c" or not gone:
            write_elf(src[k], elf(soname=so[k], needed=needed(k)))
    os.makedirs(real, exist_ok=True)
    os.symlink("../real.d/libc-real.so.3.1", f"{ext}/{so['c']}")
    on = {p: sx.conc(sx.bool("on_" + p)) for p in "bc"}
    on["c2"] = not on["c"] and sx.conc(sx.bool("on_c2"))
    exclude = [p for p, k in (("libb.so*", "b"), ("libc-x.so.3", "c"), (f"{base}/real.?/*", "c2")) if on[k]]
    out = {"a": False, "b": on["b"], "c": on["c"] or (on["c2"] and not gone)}
    files = {"m": "pkg/m.so", "n": "pkg/libn.so"}
    whl = make_wheel(base + "/in", wheel_name(), {
        files["m"]: elf(needed=["libc.so.6", *needed("m")], symbols=[pyinit("m")]), files["n"]: elf(needed=["libc.so.6", *needed("n")])})
    e = lambda s, t: edge.get((s, t), False)  # noqa: E731
    if gone:
        edge["c", "a"] = False
    reach = {t: sx.And(not out[t], sx.Or(e("m", t), e("n", t))) for t in so}
    for _ in range(3):
        reach = {t: sx.And(not out[t], sx.Or(reach[t], *[sx.And(reach[s], e(s, t)) for s in so if s != t])) for t in so}
    try:
        assert repair(whl, base + "/out", plat, ldpaths=ext, exclude=exclude) == 0
        failed = False
    except ValueError:
        failed = True
    sx.observe("failed", failed)
    if failed or gone:
        sx.check(sx.Iff(failed, sx.And(gone, reach["c"])), "grafted copies", lambda: f"failed={failed}")
    if failed:
        sx.reach("needed of the wheel's files")
        return
    (o,) = outputs(base + "/out")
    root = base + "/un"
    got = unpack(f"{base}/out/{o}", root)
    new = {k: grafted_name(src[k]) for k in so if k != "c" or not gone}

    def names_ok(path, s, extra):
        inf = elf_info(path)
        oks = [set(inf.needed) <= {*so.values(), *new.values(), *extra}, len(inf.needed) == len(set(inf.needed))]
        for t in so:
            oks.append(sx.Iff(so[t] in inf.needed, sx.And(e(s, t), out[t])))
            if t in new:
                oks.append(sx.Iff(new[t] in inf.needed, sx.And(e(s, t), not out[t])))
        some = sx.Or(*[sx.And(e(s, t), not out[t]) for t in so])
        rp = inf.rpath if inf.rpath is not None else inf.runpath
        oks.append(sx.Implies(some, leads_to(rp, os.path.relpath(path, root), root, "pkg.libs")))
        return sx.And(*oks)
    sx.check(sx.And(*[names_ok(got[fn], s, ["libc.so.6"]) for s, fn in files.items()]), "needed of the wheel's files",
             lambda: str({fn: elf_info(got[fn]) for fn in files.values()}))
    libs = {n[9:]: p for n, p in got.items() if n.startswith("pkg.libs/")}
    oks = [set(libs) <= set(new.values())]
    for t in new:
        oks.append(sx.Iff(new[t] in libs, reach[t]))
        if new[t] in libs:
            oks.append(names_ok(libs[new[t]], t, []))
    sx.check(sx.And(*oks), "grafted copies", lambda: str({n: elf_info(p) for n, p in libs.items()}))
