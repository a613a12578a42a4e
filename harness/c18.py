"""Android wheels."""
import json
import os

from harness.common import POLICY_DIR
from harness.repairworld import elf_info, grafted_name, leads_to, outputs, repair, unpack
from harness.wheelworld import G, Sym, analyze, elf, make_wheel, pyinit, wheel_name, write_elf

LEVELS = [*range(1, 41), 99, 100, 210, 240, 1000]
BOUNDS = {
    "quick": f"every API level of 1..40 and five large ones, both listed architectures, one or two platform tags; analysis and repair of wheels of 7 API levels with an extension and a "
             "library linked to any of six libraries (in the whitelist from different levels on, libpython, two others one needing the other), with run paths",
    "thorough": "8 API levels with each architecture, links from the library to each",
}
ASSUMPTIONS = ["patchelf does what its options say (stand-in validated against the real one)", "pyelftools (stand-in validated against it)"]
LABELS = {"level": ["policy of the highest listed level", "rejected", "named after the wheel"],
          "analysis": ["external libraries", "tag"],
          "repair": ["refused exactly below level 24 with libraries to graft", "no wheel of a refused request", "tag kept", "libraries grafted", "run path", "libpython kept"]}
SAMPLE_P = 0.1
ABI = {"arm64_v8a": "aarch64", "x86_64": "x86_64"}


def jobs(tier):
    q = tier == "quick"
    js = [("level", [abi, n]) for abi in ABI for n in (1, 2)]
    for i, abi in enumerate(ABI):
        js += [(j, [abi, lv, not q]) for j in ("analysis", "repair") for lv in ((21, 23, 24, 25, 26, 27, 35, 100) if not q else ((21, 26, 30), (23, 24, 27, 100))[i])]
    return js


def table():
    """{level: whitelist}, read here"""
    with open(os.path.join(POLICY_DIR, "android-policy.json")) as f:
        return {int(p["name"].split("_")[1]): set(p["lib_whitelist"]) for p in json.load(f) if p["name"] != "linux"}


def best(level):
    ls = [x for x in table() if x <= level]
    return max(ls) if ls else None


class Fn:
    """path of a wheel whose name is not decided yet"""

    _sx_ok_ = True

    def __init__(self, name):
        self.name = name

    def __str__(self):
        return str(self.name)

    def __fspath__(self):
        return str(self.name)


def run(sx, name, params):
    base = os.path.realpath(sx.scratch)
    {"level": level, "analysis": wheels, "repair": wheels}[name](sx, base, name, *params)


def level(sx, base, _, abi, n):
    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    from auditwheel.policy import WheelPolicies
    t = table()
    lv = sx.choice("level", LEVELS)
    tag = sx.lift(lambda v: f"android_{v}_{abi}", lv)
    tags = [tag]
    if n == 2:
        tags.append(sx.choice("other", [f"android_24_{abi}", "android_30_x86", f"linux_{abi}", "any"]))
    fn = sx.join("", ["pkg-1.0-cp313-cp313-", sx.join(".", tags), ".whl"])
    try:
        wp = WheelPolicies(libc=Libc.ANDROID, arch=Architecture(ABI[abi]), wheel_fn=Fn(fn))
    except ValueError:
        same = sx.eq(tags[0], tags[-1])
        sx.observe("level", "rejected")
        sx.check(sx.Or(sx.lift(lambda v: best(v) is None, lv), sx.Not(same)), "rejected")
        return
    sx.reach("rejected")
    ps = list(wp)
    sx.observe("names", [p.name for p in ps])
    sx.check(sx.And(len(ps) == 2, ps[0].name == f"linux_{ABI[abi]}", ps[0] == wp.linux, ps[-1] == wp.highest, ps[-1] == wp.lowest, sx.eq(ps[1].name, tag),
                    sx.eq(tags[0], tags[-1])), "named after the wheel", lambda: [p.name for p in ps])
    sx.check(sx.lift(lambda v: best(v) is not None and t[best(v)] == set(ps[1].whitelist), lv), "policy of the highest listed level", lambda: sorted(ps[1].whitelist))


def wheels(sx, base, job, abi, lv, wide):
    arch = ABI[abi]
    t = table()
    ext = base + "/ext"
    so = {"a": "liba.so", "b": "libb.so.2", "v": "libvulkan.so", "s": "libsync.so", "n": "libneuralnetworks.so", "p": "libpython3.13.so", "l": "liblog.so"}
    edge = {}

    def link(s, *ts):
        for x in ts:
            edge[s, x] = sx.bool(f"{s}_{x}")
    link("m", "a", "v", "s", "p")
    link("q", "b", "n", *(["p", "a", "s"] if wide else []))
    link("a", "b", "v", "p")

    def needed(s):
        return [G(g, so[x]) for (y, x), g in edge.items() if y == s]
    for k in "abvsnl":
        write_elf(f"{ext}/{so[k]}", elf(arch, soname=so[k], needed=[*needed(k), "libc.so"]))
    write_elf(f"{ext}/libc.so", elf(arch, soname="libc.so"))
    tag = f"android_{lv}_{abi}"
    fn = wheel_name(plat=tag, pyver="cp313", abi="cp313")
    whl = make_wheel(base + "/in", fn, {
        "pkg/m.so": elf(arch, needed=["libc.so", "liblog.so", *needed("m")], symbols=[pyinit("m"), Sym("x")], runpath="/data/lib:$ORIGIN/.."),
        "pkg/sub/libq.so": elf(arch, needed=["libc.so", *needed("q")], soname="libq.so")})
    wl = t[best(lv)]
    outside = {k: so[k] not in wl and k not in "p" for k in so}
    exts = {}
    for f in "mq":
        r = {k: sx.And(edge.get((f, k), False), outside[k]) for k in so}
        for k in ("b", "v"):
            r[k] = sx.And(outside[k], sx.Or(r[k], sx.And(r["a"], edge["a", k])))
        exts[f] = r
    grafted = {k: sx.Or(exts["m"][k], exts["q"][k]) for k in so}
    any_ = sx.Or(*grafted.values())
    names = {"m": "pkg/m.so", "q": "pkg/sub/libq.so"}
    if job == "analysis":
        info = analyze(whl, "android", arch, ldpaths=ext, graft=sx.conc(sx.bool("graft")))
        oks = []
        for f, p in names.items():
            refs = {str(k): v for k, v in info.full_external_refs.items()}[p]
            got = refs[tag].libs
            oks += [sx.Iff(so[k] in got, g) for k, g in exts[f].items()] + [all(x in so.values() for x in got), len(refs[f"linux_{arch}"].libs) == 0]
        sx.check(sx.And(*oks), "external libraries", lambda: str(info.full_external_refs))
        want = sx.If(sx.Or(sx.bool("graft"), sx.Not(any_)), tag, f"linux_{arch}")
        sx.observe("tag", info.overall_policy.name)
        sx.check(sx.eq(info.overall_policy.name, want), "tag", lambda: info.overall_policy.name)
        return
    err = None
    try:
        rc = repair(whl, base + "/out", ldpaths=ext)
        assert rc == 0
    except ValueError as e:
        err = e
    out = outputs(base + "/out")
    sx.observe("err", err is not None)
    sx.check(sx.Iff(err is not None, sx.And(any_, lv < 24)), "refused exactly below level 24 with libraries to graft", lambda: repr(err))
    if err is not None:
        for x in LABELS["repair"][2:]:
            sx.reach(x)
        sx.check(out == [], "no wheel of a refused request", lambda: str(out))
        return
    sx.reach("no wheel of a refused request")
    sx.check(out == [fn], "tag kept", lambda: str(out))
    root = base + "/un"
    got = unpack(f"{base}/out/{fn}", root)
    with open(got["pkg-1.0.dist-info/WHEEL"]) as f:
        tags = [x for x in f.read().splitlines() if x.startswith("Tag:")]
    sx.check(tags == [f"Tag: cp313-cp313-{tag}"], "tag kept", lambda: str(tags))
    new = {k: grafted_name(f"{ext}/{so[k]}") for k in so if k != "p"}
    oks = [sx.Iff("pkg.libs/" + new[k] in got, grafted[k]) for k in new]
    oks.append(all(n[len("pkg.libs/"):] in new.values() for n in got if n.startswith("pkg.libs/")))
    paths, py = [], []
    for f, p in names.items():
        inf = elf_info(got[p])
        some = sx.Or(*exts[f].values())
        if f == "m":
            paths.append(inf.rpath is None)
            paths.append(sx.Implies(sx.Not(some), inf.runpath == "/data/lib:$ORIGIN/.."))
            paths.append(sx.Implies(some, "/data/lib" not in (inf.runpath or "").split(":") and "$ORIGIN/.." in (inf.runpath or "").split(":")))
        else:
            paths.append(inf.rpath is None)
            paths.append(sx.Implies(sx.Not(some), inf.runpath is None))
        paths.append(sx.Implies(some, leads_to(inf.runpath, p, root, "pkg.libs")))
        for k in so:
            e = edge.get((f, k), k == "l" and f == "m")
            if k == "p":
                py.append(sx.Iff(so[k] in inf.needed, e))
            else:
                oks += [sx.Iff(so[k] in inf.needed, sx.And(e, sx.Not(outside[k]))), sx.Implies(sx.And(e, outside[k]), new[k] in inf.needed)]
    for k in new:
        n = "pkg.libs/" + new[k]
        if n in got:
            inf = elf_info(got[n])
            inner = sx.Or(*[sx.And(g, outside[x]) for (s, x), g in edge.items() if s == k])
            paths += [inf.rpath is None, sx.Iff(inf.runpath is not None, inner), sx.Implies(inner, leads_to(inf.runpath, n, root, "pkg.libs"))]
            oks.append(inf.soname == new[k])
            for (s, x), g in edge.items():
                if s == k and x == "p":
                    py.append(sx.Iff(so[x] in inf.needed, g))
                elif s == k:
                    oks += [sx.Iff(so[x] in inf.needed, sx.And(g, sx.Not(outside[x]))), sx.Implies(sx.And(g, outside[x]), new[x] in inf.needed)]
    sx.check(sx.And(*oks), "libraries grafted", lambda: str({n: elf_info(got[n]) for n in got if n.endswith(".so") or ".libs/" in n}))
    sx.check(sx.And(*paths), "run path", lambda: str({n: elf_info(got[n]) for n in got if n.endswith(".so") or ".libs/" in n}))
    sx.check(sx.And(*py), "libpython kept")
