"""Tag rewriting."""
import os
import zipfile
from email.parser import Parser as MailParser
from pathlib import Path

from harness.common import MACHINE, oracle_policies
from harness.repairworld import Refused, outputs, repair
from harness.wheelworld import elf, make_wheel, pyinit, wheel_name

BOUNDS = {
    "quick": "filename platform part: 7 (one, several, unsorted, 'any', musl, any+linux), tags in WHEEL: 3 interpreter/ABI shapes x 6 platform lists "
             "(consistent or not with the filename, repeated) or any subset of 2 pairs x 2 platforms, 1 or 2 added platforms out of 5 (not 'any') and 1, for one shape 2, removed out of 4 (also ones that are added) or none, "
             "purelib flag, build tag, output name already set or not; what is replaced for every name and alias of every policy and architecture; repairs of wheels of "
             "each architecture and libc under 4 platform parts for any of 5 policies and linux, with and without --no-update-tags",
    "thorough": "1 to 3 added platforms",
}
ASSUMPTIONS = ["packaging.utils.parse_wheel_filename, email parser/generator"]
LABELS = {"tags": ["filename platforms", "other filename parts", "tags kept", "tags gained", "no other tags", "no new duplicates",
                   "root-is-purelib", "other headers", "context name"], "replace": ["what is replaced"],
          "repair": ["filename platforms", "tags kept"]}
SAMPLE_P = 0.1

ARCHES = sorted(MACHINE)
PLATS = ["linux_x86_64", "manylinux_2_5_x86_64.manylinux1_x86_64", "any", "manylinux_2_17_x86_64.linux_x86_64",
         "musllinux_1_1_x86_64", "any.linux_x86_64", "linux_x86_64.manylinux_2_5_x86_64.manylinux2014_x86_64"]
PYS = [["cp39-cp39", "cp39-abi3"], ["py2-none", "py3-none"], ["cp39-abi3", "cp310-abi3", "cp39-abi3", "cp310-none"]]
INFO = [["linux_x86_64"], ["any"], ["manylinux1_x86_64", "manylinux_2_5_x86_64"], ["linux_x86_64", "linux_x86_64", "any"],
        ["manylinux_2_17_x86_64", "linux_x86_64"], ["musllinux_1_1_x86_64"]]
ADD = ["manylinux_2_17_x86_64", "manylinux2014_x86_64", "manylinux1_x86_64", "musllinux_1_1_x86_64", "manylinux_2_5_x86_64"]
REM = ["linux_x86_64", "manylinux1_x86_64", "any", "zzz_x86_64"]


def jobs(tier):
    n = 2 if tier == "quick" else 3
    js = [("replace", [lc]) for lc in ("glibc", "musl")] + [("repair", [lc, a]) for lc in ("glibc", "musl") for a in ARCHES if oracle_policies(lc, a)[1:]]
    return js + [("tags", [p, i, n]) for p in range(len(PLATS)) for i in range(len(PYS))] + [("tags", [p, "ragged", n]) for p in ((0, 6) if n == 2 else range(len(PLATS)))]


def replaced(sx, libc):
    """repair replaces the plain linux tag of the architecture, and nothing when asked for linux"""
    from auditwheel.policy import get_replace_platforms

    names = {n: a for a in ARCHES for p in oracle_policies(libc, a) for n in (p[0], *p[5])}
    plat = sx.choice("name", sorted(names))
    got = list(get_replace_platforms(plat))
    want = sx.lift(lambda n: "" if n.startswith("linux_") else "linux_" + names[n], plat)
    sx.observe("got", got)
    sx.check(sx.Or(sx.And(len(got) == 0, sx.eq(want, "")), len(got) == 1 and sx.eq(got[0], want)), "what is replaced", lambda: f"{plat} {got}")


def repaired(sx, libc, arch):
    """the name and the tags of a repaired wheel"""
    # the host has no musl: the latest version counts
    pols = oracle_policies(libc, arch)[:2 if libc == "musl" else None]
    alias = {p[0]: (p[0], *p[5]) for p in pols}
    old_, new_ = pols[1][0], pols[-1][0]
    plats = [f"linux_{arch}", f"linux_{arch}.{old_}", ".".join(alias[new_]), f"{new_}.linux_{arch}"]
    plat = sx.conc(sx.choice("plat", plats))
    want = sx.conc(sx.choice("want", sorted({pols[0][0], pols[1][0], pols[2][0] if len(pols) > 2 else old_, pols[-2][0], pols[-1][0]})))
    keep = sx.conc(sx.bool("keep"))
    only = sx.conc(sx.bool("only"))
    base = os.path.realpath(sx.scratch)
    fn = wheel_name(plat=plat, pyver="cp312.cp313", abi="abi3")
    soname = next(n for n in sorted(pols[1][3]) if n.startswith(("libc.so.6", "libc.musl-")))
    whl = make_wheel(base + "/in", fn, {"pkg/m.so": elf(arch=arch, needed=[soname], symbols=[pyinit("m")])})
    try:
        repair(whl, base + "/out", want, only_plat=only, update_tags=not keep)
        fail = None
    except Refused as e:
        fail = str(e)
    assert fail is None, fail
    (out,) = outputs(base + "/out")
    old = plat.split(".")
    if keep:
        new = old
    else:
        new = sorted({*[p for p in old if p != f"linux_{arch}" or want.startswith("linux_")], *alias[want], *(() if only else alias[new_])})
    sx.check(out == fn[: -len(plat) - 4] + ".".join(new) + ".whl", "filename platforms", lambda: f"{out} want {new}")
    with zipfile.ZipFile(f"{base}/out/{out}") as z:
        tags = MailParser().parsestr(z.read("pkg-1.0.dist-info/WHEEL").decode()).get_all("Tag")
    sx.observe("out", [out, sorted(tags)])
    sx.check(sorted(tags) == sorted(f"{py}-abi3-{p}" for py in ("cp312", "cp313") for p in new), "tags kept", lambda: f"{tags} {out}")


def run(sx, name, params):
    if name in ("replace", "repair"):
        {"replace": replaced, "repair": repaired}[name](sx, *params)
        return
    from auditwheel.wheeltools import InWheelCtx, add_platforms

    plat, nadd = PLATS[params[0]], params[2]
    ragged = params[1] == "ragged"
    py = PYS[0 if ragged else params[1]]
    build = "1build-" if params[0] % 2 and params[1] == 0 else ""
    pyabi = {"ragged": "cp39-abi3.cp39", 0: "cp39-abi3.cp39", 1: "py2.py3-none", 2: "cp39.cp310-abi3.none"}[params[1]]
    fn = f"my_pkg-1.0.post1-{build}{pyabi}-{plat}.whl"
    info_plats = None if ragged else sx.conc(sx.choice("info", INFO))
    pure = sx.conc(sx.choice("purelib", ["true", "false"])) if params[1] == 1 else "true"
    if ragged:
        # not every pair with every platform
        old_tags = [t for t in (f"{p}-{x}" for x in ("linux_x86_64", "manylinux1_x86_64") for p in py) if sx.conc(sx.bool(t))]
        py = [p for p in py if any(t.startswith(p) for t in old_tags)]
        if not py:
            return
    else:
        old_tags = [f"{p}-{x}" for p in py for x in info_plats]
    w = Path(sx.sub("w"))
    di = w / "my_pkg-1.0.post1.dist-info"
    di.mkdir()
    (di / "WHEEL").write_text("Wheel-Version: 1.0\nGenerator: x (1)\nRoot-Is-Purelib: " + pure + "\n" +
                              "".join(f"Tag: {t}\n" for t in old_tags) + (f"Build: {build[:-1]}\n" if build else "") + "\n")
    k = sx.conc(sx.int("nadd", 1, nadd))
    adds = [sx.choice(f"add{i}", ADD) for i in range(k)]
    rems = [sx.choice(f"rem{i}", REM) for i in range(sx.conc(sx.int("nrem", 0, 2 if nadd > 2 or params[1] == 2 else 1)))]
    for i in range(k):
        for j in range(i):
            sx.assume(sx.Not(sx.eq(adds[i], adds[j])))
    if len(rems) > 1:
        sx.assume(sx.lift(lambda a, b: a < b, rems[0], rems[1]))
    ctx = InWheelCtx(w / fn)
    ctx.path = w
    outset = params[1] == 1
    if outset:
        ctx.out_wheel = Path(sx.sub("out")) / fn
    cwd = os.getcwd()
    os.chdir(w)
    try:
        out = add_platforms(ctx, list(adds), list(rems))
    finally:
        os.chdir(cwd)

    # -- the filename
    old = plat.split(".")
    universe = sorted({*old, *ADD, "any"})
    added = {u: sx.Or(*[sx.eq(a, u) for a in adds]) for u in universe}
    inset = {u: sx.Or(sx.And(u in old, sx.And(*[sx.Not(sx.eq(r, u)) for r in rems])), added[u]) for u in universe}
    dropped = sx.And(inset["any"], sx.Or(*[inset[u] for u in universe if u != "any"]))
    inset["any"] = sx.And(inset["any"], sx.Not(dropped))
    got = sx.lift(lambda p: (p.parent, p.name), out)
    prefix, parent = fn[: -len(plat + ".whl")], Path(sx.sub("out")) if outset else w

    def platforms(g):
        n = g[1]
        return tuple(n[:-4].rsplit("-", 1)[1].split(".")) if n.endswith(".whl") else ("?",)

    plats = sx.lift(platforms, got)
    sx.observe("name", sx.lift(lambda g: g[1], got))
    sx.check(sx.And(sx.lift(lambda p: list(p) == sorted(set(p)) and set(p) <= set(universe), plats),
                    *[sx.Iff(sx.lift(lambda p, u=u: u in p, plats), c) for u, c in inset.items()]),
             "filename platforms", lambda: plats)
    sx.check(sx.lift(lambda g: g[1].startswith(prefix) and g[1].count("-") == fn.count("-"), got), "other filename parts")
    sx.check(sx.And(sx.eq(ctx.out_wheel, out), sx.lift(lambda g: g[0] == parent, got)), "context name")

    # -- the WHEEL file
    from email.parser import Parser
    msg = Parser().parsestr((di / "WHEEL").read_text())
    tags = msg.get_all("Tag") or []
    sx.observe("tags", tags)
    sx.observe("pure", msg.get_all("Root-Is-Purelib"))

    def gone(t):
        p = t.rpartition("-")[2]
        return sx.Or(*[sx.eq(r, p) for r in rems], sx.And(dropped, p == "any"))

    def has(t):
        return sx.Or(*[sx.eq(x, t) for x in tags])

    wanted = [(sx.lift(lambda a, p=p: f"{p}-{a}", a), sx.And(sx.eq(a, "any"), dropped)) for p in py for a in adds]
    sx.check(sx.And(*[sx.Implies(sx.Not(gone(t)), has(t)) for t in old_tags]), "tags kept", lambda: f"{old_tags} -> {tags}")
    sx.check(sx.And(*[sx.Or(has(t), skip) for t, skip in wanted]), "tags gained", lambda: f"{wanted} {tags}")
    sx.check(sx.And(*[sx.Or(*[sx.And(x == t, sx.Not(gone(t))) for t in old_tags], *[sx.eq(x, t) for t, _ in wanted])
                      for x in tags]), "no other tags", lambda: f"{tags}")
    sx.check(sx.And(*[sx.Or(sx.Not(sx.eq(tags[i], tags[j])), sx.Or(*[sx.eq(tags[i], t) for t in dups(old_tags)]))
                      for i in range(len(tags)) for j in range(i)]), "no new duplicates", lambda: f"{tags}")
    changed = sx.Or(len(tags) != len(old_tags), *[sx.Not(sx.eq(a, b)) for a, b in zip(tags, old_tags)])
    is_false = msg.get_all("Root-Is-Purelib") == ["False"]
    is_old = msg.get_all("Root-Is-Purelib") == [pure]
    sx.check(sx.If(sx.And(dropped, changed), is_false, is_old), "root-is-purelib", lambda: msg.get_all("Root-Is-Purelib"))
    sx.check(msg["Wheel-Version"] == "1.0" and msg["Generator"] == "x (1)", "other headers")


def dups(ts):
    return [t for t in set(ts) if ts.count(t) > 1]
