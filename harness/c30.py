"""Libraries of the wheel that other files of the wheel load."""
import os

from harness.wheelworld import G, analyze, elf, make_wheel, pyinit, wheel_name, write_elf

BOUNDS = {
    "quick": "an extension, a second file (extension or program, with or without a way to one of the external directories) and two libraries of the wheel "
             "with any links from the first to both libraries and an external one, from the second to the first library and the external one, between "
             "the libraries and to the external and a missing one, and from the external one to another; the libraries with or without a run path to each other; "
             "a white-listed library that needs a library of the wheel; no extension at all; two libraries of the wheel with one name; a library of the wheel that finds some of what it needs on its own; a library loaded under its own name or under another spelling of its path",
    "thorough": "the same, the second file linked to both libraries",
}
ASSUMPTIONS = ["no library but that one is white-listed", "where two fully resolved files load a library, either resolution is right"]
LABELS = {"fix": ["files of the wheel keep or inherit", "wheel-level external libraries"], "twins": ["files of the wheel keep or inherit"], "keeps": ["files of the wheel keep or inherit"]}
SAMPLE_P = 0.1


def jobs(tier):
    if tier != "quick":
        return [("fix", [second, origin, alias, True]) for second in ("ext2", "exe2", "ext-", "exe-", "none", "back", "lib") for origin in ("rpath", "runpath", "")
                for alias in (False, True)] + [("keeps", []), ("twins", [True]), ("twins", [False])]
    return [("keeps", []), ("twins", [True]), ("twins", [False])] + [("fix", [s, o, a, False]) for s, o, a in (
        ("back", "rpath", False), ("lib", "", False), ("lib", "rpath", False),
        ("ext2", "runpath", False), ("ext2", "", False), ("exe2", "rpath", False), ("exe2", "", False), ("ext-", "rpath", False), ("exe-", "", False),
        ("none", "rpath", True), ("none", "", True), ("none", "runpath", False))]


def twins(sx, base, same):
    """two libraries of the wheel have one name; what loads one has nothing to say about the other (unless it is the same file)"""
    e1 = base + "/ext1"
    edge = {(k[0], k[1]): sx.bool(k) for k in ("ma", "mx", "ab", "ax", "cb", "cx", "bx", "na")}
    so = {"a": "liba.so", "b": "libb.so", "x": "libx.so"}

    def needed(f):
        return [G(g, so[t]) for (s, t), g in edge.items() if s == f]
    write_elf(f"{e1}/libx.so", elf())
    files = {"pkg/m.so": elf(needed=needed("m"), symbols=[pyinit("m")], rpath=f"$ORIGIN/one:{e1}"),
             "pkg/one/liba.so": elf(needed=needed("a"), salt="1"), "pkg/one/libb.so": elf(needed=needed("b")),
             "pkg/two/liba.so": elf(needed=needed("c"), salt="2"),
             "pkg/n.so": elf(needed=needed("n"), symbols=[pyinit("n")], rpath=f"$ORIGIN/one:{e1}" if same else "$ORIGIN/two")}
    if not same:
        files["pkg/two/libb.so"] = elf()
    whl = make_wheel(base + "/in", wheel_name(), files)
    info = analyze(whl, ldpaths="")
    got = {"/".join(fn.parts[-2:]): {k: None if v is None else str(v) for k, v in rs["manylinux_2_28_x86_64"].libs.items()} for fn, rs in info.full_external_refs.items()}
    sx.observe("got", sorted((f, sorted((k, v and os.path.basename(v)) for k, v in x.items())) for f, x in got.items()))
    X = f"{e1}/libx.so"

    def is_(f, lib, want):
        return f in got and sx.eq(got[f].get(so[lib], "absent"), want)

    def reach(f, t):
        g = edge.get((f, t), False)
        return sx.Or(g, sx.And(edge[f, "b"], edge["b", t])) if t == "x" and (f, "b") in edge else g
    oks = []
    e = edge
    # one/liba.so: as what loads it has it
    loaded = sx.Or(e["m", "a"], sx.And(same, e["n", "a"]))
    oks += [is_("one/liba.so", "b", sx.If(sx.And(e["a", "b"], sx.Not(loaded)), None, "absent")),
            is_("one/liba.so", "x", sx.If(loaded, sx.If(reach("a", "x"), X, "absent"), sx.If(e["a", "x"], None, "absent")))]
    bload = sx.And(loaded, e["a", "b"])
    oks.append(is_("one/libb.so", "x", sx.If(e["b", "x"], sx.If(bload, X, None), "absent")))
    # two/liba.so: nobody, or a file that does find libb but not libx
    if same:
        there = False
    else:
        # n loads it, and is resolved when it does not need libx
        there = sx.And(e["n", "a"], sx.Not(e["c", "x"]))
    oks += [is_("two/liba.so", "b", sx.If(sx.And(e["c", "b"], sx.Not(there)), None, "absent")),
            is_("two/liba.so", "x", sx.If(e["c", "x"], None, "absent"))]
    sx.check(sx.And(*oks), "files of the wheel keep or inherit", lambda: got)


def keeps(sx, base):
    """what a library of the wheel finds on its own stays when the rest is inherited"""
    e1, e2 = base + "/ext1", base + "/ext2"
    e = {k: sx.bool(k) for k in ("ma", "mx", "my", "ax", "ay", "bx", "ab")}
    for d, n in ((e1, "x"), (e1, "y"), (e2, "x")):
        write_elf(f"{d}/lib{n}.so", elf(salt=d))

    def needed(f):
        return [G(g, f"lib{k[1]}.so") for k, g in e.items() if k[0] == f]
    files = {"pkg/m.so": elf(needed=needed("m"), symbols=[pyinit("m")], rpath=f"$ORIGIN/../pkg.libs:{e1}"),
             "pkg.libs/liba.so": elf(needed=needed("a"), rpath=f"$ORIGIN:{e2}"), "pkg.libs/libb.so": elf(needed=needed("b"), rpath=e2)}
    info = analyze(make_wheel(base + "/in", wheel_name(), files), ldpaths="")
    got = {fn.name: {k: None if v is None else str(v) for k, v in rs["manylinux_2_28_x86_64"].libs.items()} for fn, rs in info.full_external_refs.items()}
    sx.observe("got", sorted((f, sorted(x)) for f, x in got.items()))
    want = {"liba.so": {"x": sx.If(sx.Or(e["ax"], sx.And(e["ab"], e["bx"])), f"{e2}/libx.so", "absent"), "y": sx.If(e["ay"], sx.If(e["ma"], f"{e1}/liby.so", None), "absent")},
            "libb.so": {"x": sx.If(e["bx"], f"{e2}/libx.so", "absent")}}
    sx.check(sx.And(*[f in got and sx.eq(got[f].get(f"lib{k}.so", "absent"), w) for f, ws in want.items() for k, w in ws.items()]), "files of the wheel keep or inherit", lambda: got)


def run(sx, name, params):
    if name == "twins":
        twins(sx, os.path.realpath(sx.scratch), *params)
        return
    if name == "keeps":
        keeps(sx, os.path.realpath(sx.scratch))
        return
    second, origin, alias, wide = params
    # back: an external library needs a library of the wheel; lib: no file is a Python extension
    back, ext, second = second == "back", second != "lib", "none" if second in ("back", "lib") else second
    base = os.path.realpath(sx.scratch)
    e1, e2 = base + "/ext1", base + "/ext2"
    d = lambda n: sx.bool(n)  # noqa: E731
    edge = {}

    def link(a, *bs):
        for b in bs:
            edge[a, b] = d(f"{a}_{b}")
    link("m", "a", "b", "x")
    if second != "none":
        link("n", "a", "x", *(["b"] if wide else []))
    link("a", "b", "x")
    link("b", "x", "none")
    link("x", "y")
    if back:
        link("m", "z")
        link("z", "b")
    so = {"a": "liba.so", "b": "libb.so", "x": "libx.so", "y": "liby.so", "none": "libnone.so"}

    def needed(a):
        return [G(g, so[t]) for (s, t), g in edge.items() if s == a]

    for e in (e1, e2):
        write_elf(f"{e}/libx.so", elf(needed=needed("x"), salt=e))
    write_elf(f"{e1}/liby.so", elf())
    if back:
        # white-listed: a way to the libraries of the wheel that is not followed
        so["z"] = "libz.so.1"
        write_elf(f"{e1}/libz.so.1", elf(needed=needed("z")))
    o = {origin: "$ORIGIN"} if origin else {}
    # alias: the extension finds the libraries under another spelling of their path
    files = {"pkg/m.so": elf(needed=needed("m"), symbols=[pyinit("m")] if ext else [], rpath=f"$ORIGIN/../pkg.libs:{e1}"),
             "pkg.libs/liba.so": elf(needed=needed("a"), **o), "pkg.libs/libb.so": elf(needed=needed("b"), **o)}
    if second != "none":
        files["pkg/n.so"] = elf(needed=needed("n"), symbols=[pyinit("n")] if second.startswith("ext") else [],
                                rpath="$ORIGIN/../pkg.libs" + (f":{e2}" if second.endswith("2") else ""))
    if alias:
        files["pkg/m.so"].rpath = f"$ORIGIN/../pkg.libs/.:{e1}"
    if not ext:
        files = dict(reversed(files.items()))
    whl = make_wheel(base + "/in", wheel_name(), files)
    info = analyze(whl, ldpaths="")

    tops = {"m": "pkg/m.so", "a": "pkg.libs/liba.so", "b": "pkg.libs/libb.so"}
    if second != "none":
        tops["n"] = "pkg/n.so"
    place = {
        "m": {"a": "w", "b": "w", "x": e1, "y": e1, "z": e1},
        "n": {"a": "w", "b": "w", **({"x": e2} if second.endswith("2") else {})},
        "a": {"b": "w"} if origin else {}, "b": {},
    }

    def closure(root, where=None, refs=False):
        """which libraries a file's own tree holds (where: found libraries only have needs of their own; refs: which it refers to)"""
        r = {t: False if refs and t == "z" else edge.get((root, t), False) for t in so}
        for _ in range(4):
            r = {t: sx.Or(r[t], *[sx.And(r[s], g) for (s, u), g in edge.items() if u == t and s in r and (where is None or s in where)]) for t in so}
        return r

    own = {f: closure(f, place[f]) for f in tops}
    done = {f: sx.And(*[sx.Not(own[f][t]) for t in so if t not in place[f]]) for f in tops}
    refs = {f: closure(f, place[f], True) for f in tops}
    true = {f: closure(f, None, True) for f in tops}
    got = {}
    for fn, rs in info.full_external_refs.items():
        f = {v: k for k, v in tops.items()}["/".join(fn.parts[-2:])]
        got[f] = {k: None if v is None else str(v) for k, v in rs["manylinux_2_28_x86_64"].libs.items()}
    ok = [set(got) == set(tops)]
    has = {}
    for f in tops:
        loaders = [c for c in ("m", "n") if c in tops and f in so]
        cands = [sx.And(done[c], own[c][f]) for c in loaders]
        inherit = sx.And(f in so, sx.Not(done[f]), sx.Or(*cands))
        ok.append(all(k in so.values() for k in got[f]))
        for t in so:
            v = got[f].get(so[t], "absent")
            outside = place[f].get(t) != "w"
            kept = sx.And(refs[f][t], outside)
            # as the file resolves it itself
            alone = sx.If(kept, (f"{place[f][t]}/{so[t]}" if t in place[f] else None) if outside else "absent", "absent")
            case = [sx.And(sx.Not(inherit), sx.eq(v, alone))]
            for c, g in zip(loaders, cands):
                w = place[c].get(t)
                there = sx.And(true[f][t], w != "w")
                case.append(sx.And(inherit, g, sx.eq(v, sx.If(there, f"{w}/{so[t]}", "absent"))))
            has[f, t] = v != "absent"
            ok.append(sx.Or(*case))
    sx.check(sx.And(*ok), "files of the wheel keep or inherit", lambda: got)
    needs = lambda n: sx.Or(*[g for (s, t), g in edge.items() if t == n and s in tops])  # noqa: E731
    audited = {f: True if f == "m" or f == "n" else sx.Not(needs(f)) for f in tops}
    merged = info.external_refs["manylinux_2_28_x86_64"].libs
    sx.observe("merged", {k: None if v is None else v.name for k, v in merged.items()})
    sx.check(sx.And(*[sx.Iff(sx.in_(so[t], merged), sx.Or(*[sx.And(audited[f], has[f, t]) for f in tops])) for t in so]),
             "wheel-level external libraries", lambda: f"{merged} {got}")
