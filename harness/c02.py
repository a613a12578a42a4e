"""External references = the non-whitelisted dependency closure."""
import os
from pathlib import Path

from harness.common import MACHINE, oracle_policies, wheel_policies

BOUNDS = {
    "quick": "one ELF file and 3 libraries, every edge set between them (cycles included), whitelisted (every distinct set of "
             "policies) / unknown / loader / missing / in-wheel positions; 2 libraries with self edges over every pair of names "
             "(whitelist profiles, unknown, loaders, libpython) for glibc x86_64 and s390x, musl, android; 2 libraries at every pair of "
             "places (outside, inside, sibling directory with the wheel's name as prefix, missing, symlinks in and out); wheels of two extensions "
             "and a library with two external libraries, every link",
    "thorough": "3 libraries with self edges; 4 libraries without",
}
ASSUMPTIONS = ["the policy JSON files are data read as shipped", "pathlib/os of CPython (real directories)"]
LABELS = {
    "closure": ["externals = closure", "linux has none", "every policy reported", "paths"],
    "names": ["externals = closure", "linux has none", "every policy reported", "paths"],
    "places": ["externals = closure", "linux has none", "every policy reported", "paths"],
    "wheel": ["externals of each file", "externals of the wheel"],
}


def profiles(libc, arch):
    """one name per distinct set of policies that whitelist it"""
    pols = oracle_policies(libc, arch)[1:]
    names = sorted(set().union(*[p[3] for p in pols]))
    seen = {}
    for n in names:
        if n.startswith("ld"):
            continue
        seen.setdefault(tuple(n in p[3] for p in pols), n)
    return list(seen.values())


def jobs(tier):
    if tier == "quick":
        out = [("closure", ["glibc", "x86_64", 3, pat, False]) for pat in ("WXX", "XMP", "WLX", "PWX")]
    else:
        out = [("closure", ["glibc", "x86_64", 3, pat, True]) for pat in ("XXX", "WXX", "XMP", "LXX", "PWX")]
        out += [("closure", ["glibc", "x86_64", 4, pat, False]) for pat in ("WXXX", "PWXX")]
    archs = [("glibc", "x86_64"), ("glibc", "s390x"), ("musl", "x86_64"), ("android", "x86_64")]
    out += [("names", [li, a, 2]) for li, a in archs]
    out += [("places", ["glibc", "x86_64", 2]), ("wheel", [])]
    return out


def whole(sx):
    """a wheel of two extensions and a library"""
    from harness.wheelworld import G, analyze, elf, make_wheel, pyinit, wheel_name, write_elf
    base = os.path.realpath(sx.scratch)
    pols = oracle_policies("glibc", "x86_64")
    so = {"a": "liba.so.1", "e": "libmvec.so.1", "q": "libq.so"}
    edge = {(s, t): sx.bool(f"{s}_{t}") for s in "mnqa" for t in ("a", "e", "q") if s != t and (s, t) not in (("a", "q"), ("n", "e"))}

    def needed(s):
        return [G(g, so[t]) for (x, t), g in edge.items() if x == s]
    for k in "ae":
        write_elf(f"{base}/ext/{so[k]}", elf(soname=so[k], needed=needed(k)))
    files = {f"pkg/{k}.so": elf(needed=["libc.so.6", *needed(k)], symbols=[pyinit(k)], runpath="$ORIGIN") for k in "mn"}
    files["pkg/libq.so"] = elf(soname="libq.so", needed=needed("q"))
    info = analyze(make_wheel(base + "/in", wheel_name(), files), "glibc", "x86_64", ldpaths=base + "/ext")
    each = {os.path.basename(str(f)): r for f, r in info.full_external_refs.items()}
    ok, okw = [set(each) == {"m.so", "n.so", "libq.so"}], []
    for p in pols:
        def shown(t, p=p):
            return p[3] is not None and so[t] not in p[3]
        every = {"a": False, "e": False}
        for f in "mnq":
            r = {t: sx.And(edge.get((f, t), False), shown(t)) for t in so}
            for _ in range(2):
                r = {t: sx.Or(r[t], *[sx.And(r[s], g, shown(t)) for (s, u), g in edge.items() if u == t and s in so]) for t in so}
            fn = "libq.so" if f == "q" else f"{f}.so"
            if fn not in each:
                continue
            libs = each[fn][p[0]].libs
            for t in ("a", "e"):
                every[t] = sx.Or(every[t], r[t])
                ok.append(sx.Iff(sx.in_(so[t], libs), r[t]))
            ok.append(all(k in (so["a"], so["e"]) for k in libs))
        libs = info.external_refs[p[0]].libs
        okw += [sx.Iff(sx.in_(so[t], libs), every[t]) for t in every]
        okw.append(all(k in (so["a"], so["e"]) for k in libs))
    sx.check(sx.And(*ok), "externals of each file")
    sx.check(sx.And(*okw), "externals of the wheel")


def run(sx, name, params):
    if name == "wheel":
        whole(sx)
        return
    libc, arch, n = params[:3]
    android = libc == "android"
    if android:
        wp = wheel_policies(sx, libc, arch, Path("p-1-cp312-cp312-android_24_x86_64.whl"))
        pols = [p for p in oracle_policies(libc, arch) if p[0] == f"android_24_{arch}"]
        pols = [(f"linux_{arch}", 0, {}, None, {}, ())] + pols
    elif libc == "musl":
        wp = wheel_policies(sx, libc, arch, musl="musllinux_1_2")
        pols = [p for p in oracle_policies(libc, arch) if p[0].startswith(("linux", "musllinux_1_2"))]
    else:
        wp = wheel_policies(sx, libc, arch)
        pols = oracle_policies(libc, arch)
    prof = profiles(libc, arch)
    unknown = ["libfoo.so.1", "libbar-2.so"]
    loaders = ["ld-linux-x86-64.so.2", "ld64.so.1", "ld64.so.2", "my-ld-linux.so"]
    if name == "closure":
        # W: any whitelist profile; X: unknown; L: loader; P: in-wheel capable; M: missing capable
        names, locs = [], []
        for i, c in enumerate(params[3]):
            if c == "W":
                names.append(sx.conc(sx.choice(f"name{i}", prof)))
            elif c == "L":
                names.append(sx.conc(sx.choice(f"name{i}", loaders)))
            else:
                    names.append(f"libx{i}.so.{i}")
            locs.append(sx.choice(f"loc{i}", ["wheel", "sibling"]) if c == "P" else
                        sx.choice(f"loc{i}", ["missing", "ext"]) if c == "M" else "ext")
    elif name == "names":
        pool = prof + unknown + loaders + (["libpython3.12.so", "libpython3.9m.so.1.0", "libpythonx.so"])
        names = [sx.conc(sx.choice(f"name{i}", pool)) for i in range(n)]
        if names[0] == names[1]:
            sx.assume(False)
        locs = ["ext"] * n
    if name == "places":
        names = ["libfoo.so.1", "libbar-2.so"]
        locs = [sx.choice(f"loc{i}", ["ext", "wheel", "sibling", "missing", "wheel-link", "ext-link"])
                for i in range(n)]
    e0 = [sx.bool(f"e{i}") for i in range(n)]
    selfs = name == "names" or params[-1] is True
    ee = [[sx.bool(f"d{i}{j}") if i != j or selfs else False for j in range(n)] for i in range(n)]

    from auditwheel.architecture import Architecture
    from auditwheel.lddtree import DynamicExecutable, DynamicLibrary, Platform
    base = sx.scratch
    wheel, ext, sib = (os.path.join(base, d) for d in ("whl", "ext", "whl2"))
    for d in (wheel + "/pkg", ext, sib):
        os.makedirs(d, exist_ok=True)
    locs = [sx.conc(x) for x in locs]
    paths = []
    for nm, loc in zip(names, locs):
        if loc == "missing":
            paths.append(None)
            continue
        d = {"ext": ext, "wheel": wheel + "/pkg", "sibling": sib, "wheel-link": ext, "ext-link": wheel + "/pkg"}[loc]
        f = os.path.join(d, nm)
        if loc.endswith("-link"):
            # the file's directory entry is a link to the other side
            t = os.path.join(wheel if loc == "wheel-link" else ext, "real-" + nm)
            open(t, "w").close()
            os.symlink(t, f)
        else:
            open(f, "w").close()
        paths.append(Path(f))
    exe = os.path.join(wheel, "pkg", "mod.so")
    # an ELF file that needs nothing black-listed: its symbols play no part
    from symx import world
    world.write_elf(exe, world.Elf(dynamic=True))
    m = MACHINE[arch]
    plat = Platform("ELFOSABI_SYSV", m[1], m[2], m[0], Architecture(arch), None, None)
    tree = DynamicExecutable(
        interpreter=None, libc=None, path=exe, realpath=Path(exe), platform=plat,
        needed=sx.seq(list(zip(e0, names))), rpath=(), runpath=(),
        libraries={nm: DynamicLibrary(soname=nm, path=None if p is None else str(p), realpath=p, platform=plat,
                                      needed=sx.seq(list(zip(ee[i], names))))
                   for i, (nm, p) in enumerate(zip(names, paths))})
    got = wp.lddtree_external_references(tree, Path(wheel))

    import re

    def hidden(nm, wl):
        return nm in wl or "ld-linux" in nm or nm in ("ld64.so.1", "ld64.so.2") or (
            android and re.match(r"^libpython\d+\.\d+m?\.so(\.\d)*$", nm) is not None)

    sx.check(sx.eq(sorted(got.keys()), sorted(p[0] for p in pols)), "every policy reported")
    for tag, _, _, wl, _, _ in pols:
        libs = got[tag].libs
        if wl is None:
            sx.check(sx.len(libs) == 0, "linux has none")
            continue
        vis = [not hidden(nm, wl) for nm in names]
        reach = [sx.And(e0[i], vis[i]) for i in range(n)]
        for _ in range(n - 1):
            reach = [sx.Or(reach[i], *[sx.And(reach[j], ee[j][i], vis[i]) for j in range(n) if j != i])
                     for i in range(n)]
        ok, okp = [], []
        for i, nm in enumerate(names):
            inside = locs[i] in ("wheel", "wheel-link")
            ok.append(sx.Iff(sx.in_(nm, libs), sx.And(reach[i], not inside)))
            if nm in libs:
                okp.append(sx.eq(libs[nm] if libs[nm] is None else Path(libs[nm]), paths[i]))
        ok.append(all(k in names for k in libs))
        sx.check(sx.And(*ok), "externals = closure", lambda tag=tag: f"{tag}: {sorted(libs)} of {names}")
        sx.check(sx.And(*okp), "paths")
    top = pols[-1][0]
    sx.observe("top", sorted(got[top].libs))
    sx.observe("low", sorted(got[pols[1][0]].libs))
