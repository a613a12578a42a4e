"""Names, permissions and reuse of grafted copies."""
import hashlib
import os

from harness.repairworld import elf_info, grafted_name, outputs, repair, unpack
from harness.wheelworld import G, elf, elf_content, make_wheel, pyinit, wheel_name, write_elf
from symx.world import mode_of, set_mode, zip_attrs

BOUNDS = {
    "quick": "every mode of nine permission bits of two grafted libraries, one needed by both, one by either of two files of the wheel, with and without strip; a library "
             "whose file has any of 5 bases (with dashes, with its own hash, with another's, with a digit more) and 5 extensions (none, several parts), found directly or "
             "through a link of another name, of up to 70 000 bytes; a wheel that holds the grafted copy already, or holds another file beside it",
    "thorough": "three libraries",
}
ASSUMPTIONS = ["patchelf does what its options say (stand-in validated against the real one)", "no two contents have the same SHA-256"]
LABELS = {"modes": ["permissions", "name", "soname", "source unchanged", "one copy"], "again": ["name", "soname", "source unchanged", "one copy"]}
LABELS["names"] = LABELS["modes"]
SAMPLE_P = 0.3
PLAT = "manylinux_2_28_x86_64"


def jobs(tier):
    n = 2 if tier == "quick" else 3
    return [("modes", [strip, n]) for strip in (False, True)] + [("names", [big]) for big in (10, 65536, 70000)] + [("again", [])]


def run(sx, name, params):
    base = os.path.realpath(sx.scratch)
    {"modes": modes, "names": names, "again": again}[name](sx, base, *params)


def content(p):
    with open(p, "rb") as f:
        return f.read()


def verify(sx, base, srcs, mode=None, before=None, used=None):
    """srcs: source files grafted; used: guard that it is grafted"""
    before, used = before or {}, used or {}
    out = outputs(base + "/out")
    assert len(out) == 1, out
    fn = f"{base}/out/{out[0]}"
    got = unpack(fn, base + "/un")
    attrs = zip_attrs(fn)
    libs = {n for n in got if n.startswith("pkg.libs/")}
    want = {s: "pkg.libs/" + grafted_name(s) for s in srcs}
    there = {s: want[s] in libs for s in srcs}
    sx.check(sx.And(*[sx.Iff(there[s], used.get(s, True)) for s in srcs]), "name", lambda: f"{sorted(libs)}, want {want}")
    sx.check(len(libs - set(want.values())) == 0, "one copy", lambda: str(libs))
    sx.check(all(elf_info(got[want[s]]).soname == want[s][len("pkg.libs/"):] for s in srcs if there[s]), "soname",
             lambda: str({n: elf_info(got[n]).soname for n in libs}))
    if mode:
        def perm(s):
            return (attrs[want[s]] >> 16) & 0o7777
        sx.check(sx.And(*[sx.eq(perm(s), mode[s] | 0o200) for s in srcs if there[s]]), "permissions",
                 lambda: str([(s, perm(s), mode[s]) for s in srcs if there[s]]))
    same = [content(s) == before[s] for s in srcs]
    if mode:
        same += [sx.eq(mode_of(s), mode[s]) for s in srcs]
    sx.check(sx.And(*same), "source unchanged")
    return got


def modes(sx, base, strip, n):
    ext = base + "/ext"
    keys = "abc"[:n]
    src = {k: f"{ext}/lib{k}.so.1" for k in keys}
    mode, before = {}, {}
    for i, k in enumerate(keys):
        write_elf(src[k], elf(soname=f"lib{k}.so.1", needed=["libb.so.1"] if k == "a" else []))
        mode[src[k]] = sx.int(f"mode_{k}", 0, 0o777)
        set_mode(src[k], mode[src[k]])
        before[src[k]] = content(src[k])
    ga, gb = sx.bool("m_b"), sx.bool("n_b")
    whl = make_wheel(base + "/in", wheel_name(), {
        "pkg/m.so": elf(needed=["libc.so.6", "liba.so.1", G(ga, "libb.so.1"), *[f"lib{k}.so.1" for k in keys[2:]]], symbols=[pyinit("m")]),
        "pkg/n.so": elf(needed=["libc.so.6", "liba.so.1", G(gb, "libb.so.1")], symbols=[pyinit("n")])})
    repair(whl, base + "/out", plat=PLAT, ldpaths=ext, strip=strip)
    verify(sx, base, list(src.values()), mode, before)


BASES = ["libfoo", "lib-foo-1", "foo", "OWN", "OTHER", "OWNX"]
EXTS = [".so", ".so.1", ".so.1.2.3", ".1.so", ""]


def names(sx, base, big):
    ext = base + "/ext"
    salt = "A" * big + "x"
    data = elf_content(elf(soname="libwhat.so.1", salt=salt))
    h = hashlib.sha256(data).hexdigest()[:8]
    b = sx.conc(sx.choice("base", BASES if big == 10 else BASES[:1]))
    e = sx.conc(sx.choice("ext", EXTS if big == 10 else EXTS[:1]))
    b = {"OWN": f"libfoo-{h}", "OTHER": "libfoo-deadbeef", "OWNX": f"libfoo-{h}0"}.get(b, b)
    link = sx.conc(sx.bool("link"))
    f = f"{ext}/real/{b}{e}" if link else f"{ext}/{b}{e}"
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, "wb") as o:
        o.write(data)
    need = "libwhat.so.1" if link else f"{b}{e}"
    if link:
        os.symlink(f"real/{b}{e}", f"{ext}/{need}")
    mode = {f: sx.int("mode", 0, 0o777)}
    set_mode(f, mode[f])
    whl = make_wheel(base + "/in", wheel_name(), {"pkg/m.so": elf(needed=["libc.so.6", need], symbols=[pyinit("m")])})
    repair(whl, base + "/out", plat=PLAT, ldpaths=ext)
    got = verify(sx, base, [f], mode, {f: data})
    assert grafted_name(f) in elf_info(got["pkg/m.so"]).needed


def again(sx, base):
    """a wheel in which the copy is there already, or another file is"""
    ext = base + "/ext"
    f = f"{ext}/liba.so.1"
    write_elf(f, elf(soname="liba.so.1", salt="one"))
    n = grafted_name(f)
    there = sx.conc(sx.choice("there", ["no", "copy", "other"]))
    use = sx.bool("uses old")
    files = {"pkg/m.so": elf(needed=["libc.so.6", "liba.so.1"], symbols=[pyinit("m")])}
    old = elf(soname=n, salt="two")
    if there == "copy":
        files["pkg.libs/" + n] = old
        files["pkg/old.so"] = elf(needed=["libc.so.6", G(use, n)], runpath="$ORIGIN/../pkg.libs", symbols=[pyinit("old")])
    elif there == "other":
        files["pkg.data/liba-00000000.so.1"] = elf(soname="liba-00000000.so.1", salt="two")
    whl = make_wheel(base + "/in", wheel_name(), files)
    before = {f: content(f)}
    repair(whl, base + "/out", plat=PLAT, ldpaths=ext)
    got = verify(sx, base, [f], None, before)
    assert n in elf_info(got["pkg/m.so"]).needed
