"""Architecture and libc from a filename."""
from harness.wheelworld import NAME, VER

ARCHES = ["aarch64", "arm64_v8a", "armv7l", "i686", "loongarch64", "ppc64", "ppc64le", "riscv64", "s390x",
          "x86_64", "x86_64_v2", "x86_64_v3", "x86_64_v4"]
BASE = {"arm64_v8a": "aarch64", "x86_64_v2": "x86_64", "x86_64_v3": "x86_64", "x86_64_v4": "x86_64"}
ODD = ["any", "win_amd64", "win32", "macosx_11_0_arm64", "macosx_10_9_universal2", "linux_ppc", "linux_x86_65", "linux",
       "linux_aarch64be", "ANY", "Linux_X86_64", "x86_64", "linux_armv8l", "manylinux", "android", "linuxx86_64", "manyandroid_x86_64",
       "macosx_10_9_x86_64", "freebsd_13_i686", "linux_musllinux_aarch64"]
PLATS = [f"{p}_{a}" for a in ARCHES for p in ("linux", "manylinux_2_17", "musllinux_1_2", "android_24")] + ODD + [
    "manylinux1_x86_64", "manylinux2014_ppc64le"]
BOUNDS = {
    "quick": f"1 or 2 platform tags, each any of {len(PLATS)} (13 architectures x 4 families, 22 others incl. foreign, upper-case, truncated); "
             "3 tags for architecture out of 12 and libc out of 14; python/abi tag sets",
    "thorough": f"3 platform tags each any of {len(PLATS)}",
}
ASSUMPTIONS = ["packaging.utils.parse_wheel_filename (run on the filename with placeholders for symbolic platform tags)"]
LABELS = {"arch": ["architecture", "pure", "rejected"], "libc": ["libc", "no single libc"], "plats": ["platforms"]}
SAMPLE_P = 0.2
FEW = ["any", "linux_x86_64", "manylinux1_x86_64", "musllinux_1_2_x86_64", "linux_x86_64_v3", "linux_aarch64", "android_24_arm64_v8a",
       "win_amd64", "linux_ppc64", "linux_ppc64le", "android_24_x86_64", "linux_x86_65", "manylinux_2_17_aarch64", "macosx_11_0_arm64"]


def jobs(tier):
    n = [1, 2] if tier == "quick" else [1, 2, 3]
    out = [(j, [k, "all"]) for j in ("arch", "libc", "plats") for k in n]
    return out + ([("arch", [3, "few"]), ("libc", [3, "few"])] if tier == "quick" else [])


def run(sx, name, params):
    from auditwheel.architecture import Architecture
    from auditwheel.error import NonPlatformWheelError, WheelToolsError
    from auditwheel.libc import Libc
    from auditwheel.wheeltools import get_wheel_architecture, get_wheel_libc, get_wheel_platforms

    n, which = params
    univ = PLATS if which == "all" else FEW
    tags = [sx.choice(f"p{i}", univ) for i in range(n)]
    fn = sx.join("", [f"{NAME}-{VER}-py3.cp312-none-", sx.join(".", tags), ".whl"])
    low = [sx.lift(str.lower, t) for t in tags]
    if name == "plats":
        got = list(get_wheel_platforms(fn))
        sx.observe("platforms", got)
        ok = [sx.lift(lambda a, b: a < b, got[i], got[i + 1]) for i in range(len(got) - 1)]
        sx.check(sx.And(*ok, *[sx.Or(*[sx.eq(g, t) for t in low]) for g in got], *[sx.Or(*[sx.eq(g, t) for g in got]) for t in low]),
                 "platforms", lambda: got)
    elif name == "arch":
        def classify(t):
            if t == "any":
                return "any"
            a = [x for x in ARCHES if t.endswith("_" + x)]
            return BASE.get(a[-1], a[-1]) if a else "?"

        kinds = [sx.lift(classify, t) for t in low]
        pure = sx.And(*[sx.eq(k, "any") for k in kinds])
        single = sx.And(sx.lift(lambda k: k not in ("any", "?"), kinds[0]), *[sx.eq(k, kinds[0]) for k in kinds[1:]])
        try:
            got = get_wheel_architecture(fn)
        except NonPlatformWheelError:
            sx.observe("r", "pure")
            sx.check(pure, "pure", lambda: low)
            return
        except WheelToolsError:
            sx.observe("r", "rejected")
            sx.check(sx.And(sx.Not(pure), sx.Not(single)), "rejected", lambda: low)
            return
        sx.observe("r", sx.lift(lambda g: g.value, got))
        sx.check(sx.And(single, sx.eq(sx.lift(lambda g: g.value if isinstance(g, Architecture) else "?", got), kinds[0])),
                 "architecture", lambda: (low, got))
    else:
        fam = {"manylinux": Libc.GLIBC, "musllinux": Libc.MUSL, "android": Libc.ANDROID}
        has = {f: sx.Or(*[sx.lift(lambda t, f=f: t.startswith(f), t) for t in low]) for f in fam}
        one = sx.Or(*[sx.And(has[f], *[sx.Not(has[g]) for g in fam if g != f]) for f in fam])
        try:
            got = get_wheel_libc(fn)
        except WheelToolsError:
            sx.observe("r", "rejected")
            sx.check(sx.Not(one), "no single libc", lambda: low)
            return
        sx.observe("r", sx.lift(lambda g: g.value, got))
        sx.check(sx.And(one, *[sx.Implies(sx.is_(got, fam[f]), has[f]) for f in fam]), "libc", lambda: (low, got))
