"""Wheels with nothing (valid) to repair."""
import argparse
import json
import os

from harness.common import MACHINE
from harness.repairworld import Parser, elf_info, outputs, repair, unpack
from harness.wheelworld import G, Sym, analyze, elf, make_wheel, pyinit, wheel_name, write_elf
from symx.world import captured

BOUNDS = {
    "quick": "three ELF files (extension, library, extension), each absent or of one of 5 architecture/libc pairs (one of an unknown machine), the last possibly in purelib, in wheels of "
             "4 platform tags; repair of such wheels; wheels of 4 platform tags (pure, platform, foreign, two) without ELF file, with one of the architecture or "
             "of another, pure wheels allowed or not, into an empty directory, one with another file of that name, or the wheel's own",
    "thorough": "each of the three possibly in purelib",
}
ASSUMPTIONS = ["pyelftools (stand-in validated against it)"]
LABELS = {"mix": ["purelib rejected", "not a platform wheel", "others named", "others do not count"],
          "fix": ["purelib rejected", "not a platform wheel", "no wheel written", "others unchanged"],
          "pure": ["accepted exactly when pure and allowed", "copied as is", "no wheel written", "report"]}
SAMPLE_P = 0.1
KINDS = [("x86_64", "glibc"), ("x86_64", "musl"), ("i686", "glibc"), ("aarch64", "musl"), (None, "glibc")]
TAGS = ["linux_x86_64", "manylinux_2_17_x86_64", "musllinux_1_2_x86_64", "any"]


def jobs(tier):
    n = 1 if tier == "quick" else 3
    return [("mix", [t, n]) for t in TAGS] + [("fix", [t]) for t in TAGS[:3]] + [("pure", [w]) for w in ("empty", "taken", "same", "two")]


def run(sx, name, params):
    from auditwheel.libc import Libc, LibcVersion
    Libc.get_current_version = lambda self: LibcVersion(1, 2)    # of the host: musl 1.2
    base = os.path.realpath(sx.scratch)
    {"mix": mix, "fix": fix, "pure": pure}[name](sx, base, *params)


def spec(sx, i, kind, ext):
    machine = {**MACHINE, None: ("EM_MIPS", 64, True, 0)}
    libc = sx.lift(lambda k: k[1], kind)
    s = elf(machine=sx.lift(lambda k: machine[k[0]][0], kind), elfclass=sx.lift(lambda k: machine[k[0]][1], kind),
            needed=[G(sx.eq(libc, "glibc"), "libc.so.6"), G(sx.eq(libc, "musl"), "libc.musl-x86_64.so.1"), f"libx{i}.so.1"], symbols=[pyinit(f"m{i}")] if ext else [],
            verneed=[("libc.so.6", [f"GLIBC_2.{(12, 17, 28)[i]}"])], soname=None if ext else f"lib{i}.so")
    if ext and i == 2:
        s.symbols.append(Sym("PyFPE_jbuf"))
    return s


def world(sx, base, npure, locs=True):
    fns = ["pkg/m0.so", "pkg/lib1.so", "pkg/m2.so"]
    kinds, files, where = [], {}, []
    for i, fn in enumerate(fns):
        k = sx.choice(f"kind{i}", KINDS) if sx.conc(sx.bool(f"there{i}")) else None
        kinds.append(k)
        pl = i >= 3 - npure and k is not None and bool(sx.conc(sx.bool(f"purelib{i}")))
        where.append(pl)
        if pl:
            fn = f"pkg-1.0.data/purelib/{fn}"
        if k is not None:
            files[fn] = spec(sx, i, k, ext=i != 1)
    fns = [f for f in fns]
    for i in range(3):
        write_elf(f"{base}/ext/libx{i}.so.1", elf(soname=f"libx{i}.so.1"))
    files["pkg/__init__.py"] = "x = 1\n"
    return files, kinds, any(where)


def select(tag, kinds):
    """(architecture, libc, indices of the files that count)"""
    arch = None if tag == "any" else "x86_64"
    libc = {"many": "glibc", "musl": "musl"}.get(tag[:4])
    good = []
    for i, k in enumerate(kinds):
        if k is None or k[0] is None:
            continue
        arch = arch or k[0]
        if k[0] != arch:
            continue
        libc = libc or k[1]
        if k[1] == libc:
            good.append(i)
    return arch, libc, good


def mix(sx, base, tag, npure):
    from auditwheel.error import NonPlatformWheelError
    files, kinds, pl = world(sx, base, npure)
    arch = None if tag == "any" else "x86_64"
    libc = {"many": "glibc", "musl": "musl"}.get(tag[:4])
    fnames = list(files)

    def run_on(d, fs):
        whl = make_wheel(f"{base}/{d}", wheel_name(plat=tag), fs)
        try:
            return analyze(whl, libc, arch, ldpaths=base + "/ext"), None
        except (NonPlatformWheelError, RuntimeError) as e:
            return None, e
    info, err = run_on("in", files)
    kinds = [sx.conc(k) for k in kinds]
    a, lc, good = select(tag, kinds)
    is_non = isinstance(err, NonPlatformWheelError)
    sx.observe("error", type(err).__name__)
    sx.check((isinstance(err, RuntimeError) and not is_non) == pl, "purelib rejected", lambda: repr(err))
    if pl:
        for x in LABELS["mix"][1:]:
            sx.reach(x)
        return
    sx.check(is_non == (not good), "not a platform wheel", lambda: f"{err!r} {kinds}")
    if not good:
        others = [os.path.basename(f) for f, k in zip([f for f in fnames if f.endswith(".so")], [k for k in kinds if k]) if k[0] != a]
        if a is not None:
            named = {f for f in ("m0.so", "lib1.so", "m2.so") if f in err.message}
            sx.check(named == set(others), "others named", lambda: f"{err.message!r}, want {others}")
        sx.reach("others do not count")
        return
    sx.reach("others named")
    idx = {"pkg/m0.so": 0, "pkg/lib1.so": 1, "pkg/m2.so": 2}
    ref, err2 = run_on("ref", {f: c for f, c in files.items() if idx.get(f, good[0]) in good})

    def facts(x):
        return [x.overall_policy.name, x.sym_policy.name, x.pyfpe_policy.name, x.blacklist_policy.name, x.machine_policy.name, x.ref_policy.name, x.policies.libc.name,
                x.policies.architecture.value, sorted((k, sorted(v)) for k, v in x.versioned_symbols.items() if v),
                sorted((p, sorted((s, str(q)) for s, q in e.libs.items())) for p, e in x.external_refs.items()),
                sorted((str(f), p, sorted(e.libs)) for f, d in x.full_external_refs.items() for p, e in d.items())]
    sx.check(err2 is None and facts(info) == facts(ref), "others do not count", lambda: f"{facts(info)} vs {facts(ref) if ref else err2!r}")
    sx.check(info.policies.libc.value == lc and info.policies.architecture.value == a, "others do not count", lambda: f"{info.policies.libc} {info.policies.architecture}")


def fix(sx, base, tag):
    files, kinds, pl = world(sx, base, 1)
    whl = make_wheel(base + "/in", wheel_name(plat=tag), files)
    with open(whl, "rb") as f:
        data = f.read()
    code, err = None, None
    before = unpack(whl, base + "/un0")
    try:
        code = repair(whl, base + "/out", ldpaths=base + "/ext", plat="auto")
    except Exception as e:
        err = e
    out = outputs(base + "/out")
    kinds = [sx.conc(k) for k in kinds]
    _, libc, good = select(tag, kinds)
    sx.observe("code", code)
    # PyFPE makes it a plain linux wheel, which is no reason to fail
    sx.check((err is not None) == pl, "purelib rejected", lambda: repr(err))
    sx.check(pl or (code == 1) == (not good), "not a platform wheel", lambda: f"{code} {kinds}")
    if pl or not good:
        sx.check(out == [], "no wheel written", lambda: str(out))
        sx.reach("others unchanged")
        return
    sx.reach("no wheel written")
    assert len(out) == 1, out
    after = unpack(f"{base}/out/{out[0]}", base + "/un1")
    idx = {"pkg/m0.so": 0, "pkg/lib1.so": 1, "pkg/m2.so": 2}
    oks = []
    for f in files:
        with open(before[f], "rb") as x, open(after[f], "rb") as y:
            same = x.read() == y.read()
        if idx.get(f, 9) in good:
            oks.append(not same and all(not n.startswith("libx") or "-" in n for n in elf_info(after[f]).needed))
        else:
            oks.append(same)
    libs = {n.split("-")[0] for n in after if n.startswith("pkg.libs/")}
    oks.append(libs == {f"pkg.libs/libx{i}" for i in good})
    with open(whl, "rb") as f:
        oks.append(f.read() == data)
    sx.check(all(oks), "others unchanged", lambda: f"{sorted(after)} {good} {oks}")


def pure(sx, base, where):
    tag = sx.conc(sx.choice("tag", ["any", "linux_x86_64", "win_amd64", "any.linux_x86_64"]))
    what = sx.conc(sx.choice("elf", [None, "x86_64", "i686"]))
    allow = sx.bool("allow")
    files = {"pkg/__init__.py": "x = 1\n"}
    if what:
        files["pkg/m.so"] = elf(arch=what, needed=["libc.so.6"], symbols=[pyinit("m")])
    src = base + "/in"
    out = src if where == "same" else base + "/out"
    fn = wheel_name(plat=tag, pyver="py3", abi="none", name="pkg")
    whl = make_wheel(src, fn, files)
    wheels = [whl]
    two = None
    if where == "two":
        two = make_wheel(src, wheel_name(plat="any", pyver="py3", abi="none", name="two"), {"two/__init__.py": ""}, name="two")
        wheels = [two, whl] if sx.conc(sx.bool("first")) else [whl, two]
    with open(whl, "rb") as f:
        data = f.read()
    if where == "taken":
        os.makedirs(out)
        with open(f"{out}/{fn}", "wb") as f:
            f.write(b"something else")
    from auditwheel import main_show
    code, text = captured(main_show.execute, argparse.Namespace(
        WHEEL_FILE=whl, JSON=True, DISABLE_ISA_EXT_CHECK=False, ALLOW_PURE_PY_WHEEL=allow, LDPATHS="", verbose=0, cmd="show", prog="auditwheel"), Parser())
    r = json.loads(text)
    # whose architecture the name does not tell takes that of the files
    analysable = what is not None and (tag != "linux_x86_64" or what == "x86_64") and (tag != "any.linux_x86_64" or True)
    is_pure = tag == "any"
    ok = True if analysable else sx.And(is_pure, allow)
    sx.check(sx.Iff(code == 0, ok), "accepted exactly when pure and allowed", lambda: f"show: {code}")
    sx.check(sx.And(r["version"] == 1, r["wheel"] == fn, sx.Iff(r.get("pure") is True, sx.And(not analysable, ok)), sx.Iff("error" in r, sx.Not(ok))), "report", lambda: text)
    rc = None
    try:
        rc = repair(wheels, out, ldpaths="", pure=allow)
    except Exception as e:
        rc = e
    if analysable:
        # repaired or refused as any platform wheel
        for x in LABELS["pure"]:
            sx.reach(x)
        return
    sx.observe("code", rc)
    good = sx.And(is_pure, allow)
    all_ok = sx.And(good, allow) if two else good
    sx.check(sx.Iff(rc == 0, all_ok), "accepted exactly when pure and allowed", lambda: f"repair: {rc}")
    got = outputs(out)
    with open(whl, "rb") as f:
        sx.check(f.read() == data, "copied as is")
    if rc == 0:
        with open(f"{out}/{fn}", "rb") as f:
            sx.check(f.read() == data, "copied as is")
        sx.check(fn in got and all(x in (fn, os.path.basename(two) if two else "") for x in got), "copied as is", lambda: str(got))
        sx.reach("no wheel written")
    else:
        want = {"same": [fn], "taken": [fn], "empty": []}.get(where)
        if two:
            first = allow and wheels[0] == two
            want = [os.path.basename(two)] if sx.conc(first) else []
        sx.check(got == want, "no wheel written", lambda: f"{got}, want {want}")
        if where == "taken":
            with open(f"{out}/{fn}", "rb") as f:
                sx.check(f.read() == b"something else", "no wheel written")


