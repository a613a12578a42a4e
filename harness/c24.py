"""Who provided what was grafted."""
import contextlib
import importlib.metadata
import json
import os
import string
from pathlib import Path

from harness.repairworld import outputs, repair, unpack
from harness.wheelworld import G, elf, make_wheel, pyinit, wheel_name, write_elf
from symx.world import HOOKS, LOG, set_text

BOUNDS = {
    "quick": "2 grafted files (one may be named twice, or through a link) over each package manager alone (dpkg, rpm, apk, apt-file) and dpkg with each other; "
             "each file unowned or owned by one of 2 packages with names and versions of 12 to 20 forms each, a tool that fails, no distribution known; "
             "wheel names and versions of 6 forms; no file at all; repairs of wheels of two extensions and two libraries, every link, each library owned or not, the wheel with SBOMs of its own or not",
    "thorough": "3 files with one package manager",
}
ASSUMPTIONS = ["the package managers print what their documentation shows (stand-ins)",
               "the version of auditwheel comes from its installed metadata (stand-in)"]
SAMPLE_P = 0.4
LABELS = {"sbom": ["no SBOM without a provider", "wheel", "components", "dependencies", "references distinct", "document"],
          "empty": ["no SBOM without a provider"], "repair": ["no SBOM without a provider", "wheel", "components", "in RECORD"]}

NAMES = {
    "dpkg": ["libz1", "libstdc++6", "lib.a+b", "g++-12-base"], "apt-file": ["libz1", "libstdc++6", "lib.a+b"],
    "rpm": ["zlib", "libstdc++", "java-1.8.0-openjdk", "a_b.c"],
    "apk": ["zlib", "libstdc++", "icu-libs", "gtk+3.0", "so-lib-2x"],
}
VERS = {
    "dpkg": ["1:1.2.11.dfsg-2+deb11u2", "5.1-6ubuntu1.1", "2.0~rc1"], "apt-file": ["1:1.2-1", "2.0~rc1+b1"],
    "rpm": ["1.2.7 20.el7_9", "3.0~beta 1", "4.8.5 44.el7^git"], "apk": ["1.3.1-r0", "2.0_rc1-r12", "10.3.1_git20211027-r0"],
}
TYPE = {"dpkg": "deb", "apt-file": "deb", "rpm": "rpm", "apk": "apk"}
SETS = [["dpkg"], ["rpm"], ["apk"], ["apt-file"], ["dpkg", "apt-file"], ["dpkg", "rpm"], []]


def quote(s):
    ok = string.ascii_letters + string.digits + "_.-~"
    return "".join(chr(b) if chr(b) in ok else f"%{b:02X}" for b in s.encode())


def jobs(tier):
    n = 2
    out = [("sbom", [t, 3, "plain"]) for t in SETS if len(t) == 1] if tier != "quick" else []
    out += [("sbom", [t, n, w]) for t in SETS for w in ("plain", "twice", "link") if w == "plain" or t in (["dpkg"], ["rpm"])]
    return out + [("sbom", [["rpm"], 1, "names"]), ("empty", []), ("repair", [True]), ("repair", [False])]


def run(sx, name, params):
    import auditwheel.sboms as sb
    importlib.metadata.version = lambda n: {"auditwheel": "9.9.9"}[n]
    if name == "repair":
        whole(sx, *params)
        return
    if name == "empty":
        sx.check(sb.create_sbom_for_wheel("pkg-1.0-cp312-cp312-linux_x86_64.whl", []) is None, "no SBOM without a provider")
        return
    tools, n, what = params
    base = os.path.realpath(sx.scratch)
    bindir = os.path.join(base, "bin")
    os.makedirs(bindir)
    for t in ("dpkg", "rpm", "apk", "apt-file"):
        if t in tools:
            for b in (t, "apt") if t == "apt-file" else (t,):
                p = os.path.join(bindir, b)
                Path(p).write_text("#!/bin/sh\nexit 99\n")
                os.chmod(p, 0o755)
    os.environ["PATH"] = bindir
    distro = sx.conc(sx.choice("distro", ["ubuntu", "x y", None])) if what == "plain" else "ubuntu"
    set_text("/etc/os-release", "NAME=\"Foo Linux\"\n" + ("" if distro is None else f"ID=\"{distro}\"\n" if " " in distro else f"ID={distro}\n") +
             "ID_LIKE=debian\nVERSION_ID=12\n")
    files, shown = [], []
    for i in range(n):
        p = os.path.join(base, "lib", f"lib{'ab'[i % 2]}.so.1" + (".2" if i == 2 else ""))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        Path(p).write_bytes(b"x%d" % i)
        files.append(p)
        shown.append(p)
    if what == "link":
        os.symlink(os.path.join(base, "lib"), os.path.join(base, "lnk"))
        shown = [os.path.join(base, "lnk", os.path.basename(f)) for f in files]
    own, nm, ver = {}, {}, {}
    for t in tools:
        for i in range(n):
            own[t, i] = sx.bool(f"own_{t}{i}")
            nm[t, i] = sx.choice(f"name_{t}{i}", NAMES[t])
            ver[t, i] = sx.choice(f"ver_{t}{i}", VERS[t])
    down = sx.conc(sx.bool("down")) and what == "plain"     # the first tool cannot even tell its version

    def asked(t, pth):
        """index of the file a tool is asked about"""
        return files.index(pth) if pth in files else None

    def tool(argv):
        t = os.path.basename(argv[0])
        if argv[1:] == ["--version"]:
            if t == "apt-file":
                return 2, b"", b""
            return (1, b"", b"") if down and tools and t == tools[0] else (0, b"1\n", b"")
        if t == "dpkg" and argv[1] == "-S":
            i = asked(t, argv[2])
            if i is None or not own[t, i]:
                return 1, b"", b"dpkg-query: no path found\n"
            return 0, sx.lift(lambda x: f"{x}:amd64: {argv[2]}\n".encode(), nm[t, i]), b""
        if t == "dpkg" and argv[1] == "-s":
            return 0, status("dpkg", argv[2]), b""
        if t == "apt" and argv[1] == "show":
            return 0, status("apt-file", argv[2]), b""
        if t == "rpm":
            i = asked(t, argv[-1])
            if i is None or not own[t, i]:
                return 1, b"", b""
            return 0, sx.lift(lambda x, v: f"{x} {v} x86_64".encode(), nm[t, i], ver[t, i]), b""
        if t == "apk":
            i = asked(t, argv[-1])
            if i is None or not own[t, i]:
                return 1, b"", b"ERROR: Could not find owner package\n"
            return 0, sx.lift(lambda x, v: f"{argv[-1]} is owned by {x}-{v}\n".encode(), nm[t, i], ver[t, i]), b""
        if t == "apt-file":
            # every path that has one of the given ones in it is listed
            out = ""
            for i, f in enumerate(files):
                if own[t, i]:
                    x = sx.conc(nm[t, i])
                    out += f"{x}: {f}\n"
                    out += f"{x}-dbg: /usr/lib/debug{f}\n"
            return 0, out.encode(), b""
        return None

    def status(t, pkg):
        pkg = sx.conc(pkg)
        for i in range(n):
            # packages are told apart by name; the version is the package's
            if sx.conc(sx.And(own[t, i], sx.eq(nm[t, i], pkg))):
                return sx.lift(lambda v: f"Package: {pkg}\nStatus: install ok installed\nVersion: {v}\nProvides: x\n".encode(), ver[t, i])
        return b"Package: " + pkg.encode() + b"\nVersion: 0-other\n"

    if what != "names":
        # a package has one version
        for t in tools:
            if t in ("dpkg", "apt-file"):
                for i in range(n):
                    for j in range(i):
                        sx.assume(sx.Implies(sx.eq(nm[t, i], nm[t, j]), sx.eq(ver[t, i], ver[t, j])))
    HOOKS["tool"] = tool
    LOG.clear()
    wn, wv = "pkg", "1.0"
    if what == "names":
        wn = sx.conc(sx.choice("wn", ["pkg", "my_pkg", "a.b", "P9"]))
        wv = sx.conc(sx.choice("wv", ["1.0", "1.0+loc.al", "1!2.0rc1", "0"]))
    fn = f"{wn}-{wv}-cp312-cp312-manylinux_2_17_x86_64.manylinux2014_x86_64.whl"
    args = [Path(s) for s in shown]
    if what == "twice":
        args = args + args
    r = sb.create_sbom_for_wheel(fn, args)
    # what is to be expected: the first tool (in order) that knows the owner
    known = []
    for i in range(n):
        opts = [] if distro is None else [t for t in tools if not (down and t == tools[0] and t != "apt-file")]
        if len(opts) > 1 and "apt-file" not in opts:
            # which of two real package managers is asked first is not fixed
            sx.assume(sx.Not(sx.And(*[own[t, i] for t in opts])))
        known.append([(own[t, i], t, i) for t in opts])
    anyone = sx.Or(*[g for k in known for g, _, _ in k])
    sx.check(sx.Iff(r is not None, anyone), "no SBOM without a provider")
    if r is None:
        return
    sx.check(r["bomFormat"] == "CycloneDX" and r["specVersion"] == "1.4" and r["version"] == 1
             and r["metadata"]["tools"] == [{"name": "auditwheel", "version": "9.9.9"}], "document")
    wp = f"pkg:pypi/{quote(wn)}@{quote(wv)}?file_name={quote(fn)}"
    w = {"type": "library", "bom-ref": wp, "name": wn, "version": wv, "purl": wp}
    sx.check(sx.And(sx.eq(r["components"][0], w), sx.eq(r["metadata"]["component"], w)), "wheel")
    comps = r["components"][1:]
    want = []
    for k in known:
        for g, t, i in k:
            if sx.conc(g):
                nme, v = nm[t, i], sx.lift(lambda x, t=t: x.replace(" ", "-") if t == "rpm" else x, ver[t, i])
                want.append((t, nme, v, sx.lift(lambda a, b, t=t: f"pkg:{TYPE[t]}/{quote(distro)}/{quote(a)}@{quote(b)}", nme, v)))
                break

    def same(c, q):
        return sx.And(sx.eq(c["type"], "library"), sx.eq(c["name"], q[1]), sx.eq(c["version"], q[2]), sx.eq(c["purl"], q[3]))

    ok = [len(comps) == len(want)]
    if len(comps) == len(want):
        import itertools
        ok.append(sx.Or(*[sx.And(*[same(c, q) for c, q in zip(p, want)]) for p in itertools.permutations(comps)]))
    sx.check(sx.And(*ok), "components", lambda: f"{comps} {want}")
    refs = [c["bom-ref"] for c in r["components"]]
    sx.check(sx.And(*[sx.Not(sx.eq(a, b)) for i, a in enumerate(refs) for b in refs[:i]]), "references distinct")
    d = r["dependencies"]
    ok = [sx.eq(d[0]["ref"], wp), len(d) == len(refs), len(d[0]["dependsOn"]) == len(refs) - 1]
    if len(d) == len(refs) and len(d[0]["dependsOn"]) == len(refs) - 1:
        for x in refs[1:]:
            ok.append(sx.Or(*[sx.eq(x, y) for y in d[0]["dependsOn"]]))
            ok.append(sx.Or(*[sx.eq(x, y["ref"]) for y in d[1:]]))
    sx.check(sx.And(*ok), "dependencies", lambda: str(d))


def whole(sx, tags):
    """what a repair puts into the wheel"""
    base = os.path.realpath(sx.scratch)
    bindir, ext = base + "/bin", base + "/ext"
    os.makedirs(bindir)
    for t in ("dpkg", "patchelf", "strip"):
        Path(f"{bindir}/{t}").write_text("#!/bin/sh\nexit 99\n")
        os.chmod(f"{bindir}/{t}", 0o755)
    os.environ["PATH"] = bindir
    set_text("/etc/os-release", "ID=debian\nVERSION_ID=12\n")
    libs = {"a": "liba.so.1", "b": "libb.so", "z": "libz.so.1"}
    link = {f"{f}_{k}": sx.bool(f"{f}_{k}") for f in "mn" for k in "ab"}
    link["a_b"] = sx.bool("a_b")
    own = {k: sx.bool(f"own_{k}") for k in "ab"}

    def need(f):
        return [G(link[f"{f}_{k}"], libs[k]) for k in "ab" if f"{f}_{k}" in link]
    for k, n in libs.items():
        # the name a library is known by is a link to the file
        write_elf(f"{ext}/{n}.9", elf(soname=n, needed=need(k) if k == "a" else [], salt=k))
        os.symlink(f"{n}.9", f"{ext}/{n}")
    # SBOMs the wheel comes with
    theirs = {"pkg-1.0.dist-info/sboms/own.cdx.json": b"{}", "pkg-1.0.dist-info/sboms/auditwheel.cdx.json": b"[]"}
    came = sx.conc(sx.choice("came", ["none", "own", "ours"]))
    theirs = {k: v for k, v in theirs.items() if came in k.replace("auditwheel", "ours")}
    whl = make_wheel(base + "/in", wheel_name(), {f"pkg/{m}.so": elf(needed=["libc.so.6", "libz.so.1", *need(m)], symbols=[pyinit(m)]) for m in "mn"} | theirs)

    def tool(argv):
        if os.path.basename(argv[0]) != "dpkg":
            return None
        if argv[1] == "--version":
            return 0, b"1\n", b""
        if argv[1] == "-S":
            for k in "abz":
                if argv[2] == f"{ext}/{libs[k]}.9" and (k == "z" or sx.conc(own[k])):
                    return 0, f"lib{k}1:amd64: {argv[2]}\n".encode(), b""
            return 1, b"", b"no path found\n"
        return 0, f"Package: {argv[2]}\nVersion: 2:1.0-3\n".encode(), b""
    HOOKS["tool"] = tool
    repair(whl, base + "/out", "manylinux_2_17_x86_64", ldpaths=ext, update_tags=tags)
    del HOOKS["tool"]
    (fn,) = outputs(base + "/out")
    files = unpack(f"{base}/out/{fn}", base + "/un")
    graft = {"a": sx.Or(link["m_a"], link["n_a"])}
    graft["b"] = sx.Or(link["m_b"], link["n_b"], sx.And(graft["a"], link["a_b"]))
    want = {k: sx.And(graft[k], own[k]) for k in "ab"}
    place = "pkg-1.0.dist-info/sboms/auditwheel.cdx.json"
    with open(files[place] if place in files else os.devnull, "rb") as f:
        made = f.read() not in (b"", theirs.get(place))
    sx.check(sx.Iff(made, sx.Or(*want.values())), "no SBOM without a provider", lambda: str(sorted(files)))
    left = {f: Path(q).read_bytes() for f, q in files.items() if f.endswith("cdx.json") and not (made and f == place)}
    sx.check(left == {f: c for f, c in theirs.items() if not (made and f == place)}, "no SBOM without a provider", lambda: str(sorted(files)))
    if not made:
        return
    with open(files[place]) as f:
        r = json.load(f)
    w = r["components"][0]
    sx.check(w["name"] == "pkg" and w["version"] == "1.0" and w["purl"] == f"pkg:pypi/pkg@1.0?file_name={quote(fn)}" and w == r["metadata"]["component"]
             and (fn == whl.name) == (not tags), "wheel", lambda: str(w))
    got = sorted((c["name"], c["version"], c["purl"]) for c in r["components"][1:])
    sx.check(sx.And(*[sx.Iff(want[k], (f"lib{k}1", "2:1.0-3", f"pkg:deb/debian/lib{k}1@{quote('2:1.0-3')}") in got) for k in "ab"],
                    all(g[0] in ("liba1", "libb1") for g in got), len(set(got)) == len(got)), "components", lambda: str(got))
    with open(files["pkg-1.0.dist-info/RECORD"]) as f:
        rec = [x.split(",")[0] for x in f.read().split("\n")]
    sx.check(rec.count(place) == 1, "in RECORD", lambda: str(rec))
