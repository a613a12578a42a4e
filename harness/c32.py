"""What repair leaves as it was."""
import hashlib
import os

from harness.repairworld import elf_info, grafted_name, outputs, repair, unpack
from harness.wheelworld import G, Sym, elf, make_wheel, pyinit, wheel_name, write_elf
from symx.world import set_zip_attr, zip_attrs

BOUNDS = {
    "quick": "two extensions, a library and a program, any of which needs an external library or not, an extension for another architecture, an object file and eleven other files (texts with "
             "names of libraries, programs and metadata, empty, binary, in the library directory, in data directories, in a vendored .dist-info, with odd names); every mode of nine bits of any of "
             "three files; with and without tag update, strip, a signature; three library directories",
    "thorough": "every combination of these, modes of five files",
}
ASSUMPTIONS = ["patchelf and strip change the file they are given (stand-ins, the former validated against the real one)"]
LABELS = {"rest": ["files not patched", "files patched", "modes", "nothing added", "input", "metadata"]}
SAMPLE_P = 0.2
DI = "pkg-1.0.dist-info"
D = "pkg-1.0.data"
OTHER = {
    "pkg/__init__.py": b"x = 1\r\n", "pkg/libfake.so": b"/* GNU ld script */ INPUT(libm.so)\n", "pkg/empty.so": b"", "pkg/data.bin": b"\x7fELG\x00\xff" * 40,
    "pkg.libs/README": b"r\n", "pkg/.hidden": b"h", "pkg/na me,\"q\".txt": "é\n".encode(), f"{D}/scripts/tool": b"#!python\nimport x\n",
    f"{D}/data/share/WHEEL": b"Tag: x-y-any\n", "pkg/_vendor/other-2.0.dist-info/RECORD": b"a,,\n", f"{DI}/licenses/sub/LICENSE": b"l\n",
}


def jobs(tier):
    q = tier == "quick"
    out = []
    for f in list(OTHER)[:5 if q else 11]:
        for strip in (False, True):
            for sdir in (".libs", "/lib", "_y")[:1 if q and (strip or f != "pkg/__init__.py") else 3]:
                out.append(("rest", [f, strip, sdir, q]))
    if q:
        out += [("rest", [f, i % 2 == 0, ".libs", q]) for i, f in enumerate(list(OTHER)[5:])]
    return out


def content(p):
    with open(p, "rb") as f:
        return f.read()


def run(sx, name, params):
    moded, strip, sdir, quick = params
    base = os.path.realpath(sx.scratch)
    ext = base + "/ext"
    need = {k: sx.bool("need_" + k) for k in "mnlx"}
    white = sx.bool("white")
    a = "liba.so.1"
    write_elf(f"{ext}/{a}", elf(soname=a, needed=["libc.so.6"]))
    prog = f"{D}/scripts/prog"
    elfs = {"m": "pkg/m.so", "n": "pkg/sub/n.so", "l": "pkg/libl.so.2", "x": prog}
    spec = {"m": elf(needed=["libc.so.6", G(need["m"], a), G(white, "libm.so.6")], symbols=[pyinit("m"), Sym("f", shndx="1")], runpath="/opt/x:$ORIGIN", salt="m"),
            "n": elf(needed=[G(need["n"], a)], symbols=[pyinit("n")], rpath="$ORIGIN/..", soname="n.so", salt="n"),
            "l": elf(needed=["libc.so.6", G(need["l"], a)], soname="libl.so.2", salt="l"),
            "x": elf(needed=["libc.so.6", G(need["x"], a)], interp="/lib64/ld-linux-x86-64.so.2", salt="x")}
    files = {elfs[k]: spec[k] for k in elfs}
    files["pkg/foreign.so"] = elf("aarch64", needed=["libc.so.6", a], symbols=[pyinit("foreign")])
    files["pkg/obj.o"] = elf(needed=[])
    files.update(OTHER)
    modes = {f: 0o100640 for f in files} | {prog: 0o100755, elfs["m"]: 0o100555, "pkg/foreign.so": 0o100711}
    signed = sx.conc(sx.bool("signed")) if sdir == ".libs" else True
    tags = sx.conc(sx.bool("tags"))
    whl = make_wheel(base + "/in", wheel_name(), files, modes=modes, signed=signed)
    free = [moded, *(["pkg/m.so"] if not strip else ["pkg/obj.o", elfs["l"]]), *([] if quick else ["pkg/foreign.so", elfs["n"]])]
    modes = {f: m & 0o7777 for f, m in modes.items()}
    for i, f in enumerate(free):
        modes[f] = sx.int(f"mode{i}", 0, 0o777)
        set_zip_attr(whl, f, (modes[f] | 0o100000) << 16)
    before = {n: content(p) for n, p in unpack(whl, base + "/un0").items()}
    info0 = {k: elf_info(f"{base}/un0/{f}") for k, f in elfs.items()}
    whole = hashlib.sha256(content(whl)).digest()
    os.makedirs(base + "/out")
    for f in ("pkg-1.0.whl", "x.txt"):
        with open(f"{base}/out/{f}", "w") as h:
            h.write(f)
    assert repair(whl, base + "/out", plat="manylinux_2_28_x86_64", ldpaths=ext, strip=strip, update_tags=tags, lib_sdir=sdir) == 0
    out, *others = [f for f in outputs(base + "/out") if f != "x.txt"]
    got = unpack(f"{base}/out/{out}", base + "/un")
    attrs = zip_attrs(f"{base}/out/{out}")
    after = {n: content(p) for n, p in got.items()}
    sx.observe("out", [out, len(got)])
    meta = {f"{DI}/RECORD", f"{DI}/WHEEL", f"{DI}/RECORD.jws"}
    own = set(elfs.values())
    still = [n for n in before if n not in own | meta and not (strip and n in ("pkg/obj.o",))]
    sx.check(all(after.get(n) == before[n] for n in still), "files not patched", lambda: str([n for n in still if after.get(n) != before[n]]))
    oks, oksm = [], []
    new = grafted_name(f"{ext}/{a}")
    where = dict(elfs)
    for k, f in elfs.items():
        if k == "x":
            moved = "pkg.scripts/prog" in after
            oks.append(sx.Iff(moved, need["x"]))
            if moved:
                where[k] = "pkg.scripts/prog"
        if where[k] not in after:
            oks.append(False)
            continue
        if not strip or where[k] != f:
            oks.append(sx.Implies(sx.Not(need[k]), after[where[k]] == before[f]))
        inf, old = elf_info(got[where[k]]), info0[k]
        oks += [inf.soname == old.soname, sx.Implies(need[k], new in inf.needed), [x for x in inf.needed if x != new] == [x for x in old.needed if x != a]]
        oks.append(sx.Implies(sx.Not(need[k]), inf == old))
    sx.check(sx.And(*oks), "files patched", lambda: str({k: elf_info(got[f]) for k, f in where.items() if f in got}))
    for f, m in modes.items():
        oksm.append(sx.eq((attrs[f] >> 16) & 0o7777, m | 0o600))
    oksm.append(sx.Implies(where["x"] != prog, sx.eq((attrs[where["x"]] >> 16) & 0o7777, modes[prog] | 0o600)))
    sx.check(sx.And(*oksm), "modes", lambda: str(attrs))
    some = sx.Or(*need.values())
    lib = f"pkg{sdir}/{new}"
    extra = set(after) - set(before)
    sx.check(sx.And(extra <= {lib, "pkg.scripts/prog"}, sx.Iff(lib in extra, some), f"{DI}/RECORD.jws" not in after), "nothing added", lambda: str(sorted(extra)))
    sx.check(hashlib.sha256(content(whl)).digest() == whole and os.listdir(base + "/in") == [os.path.basename(whl)] and sorted(os.listdir(ext)) == [a]
             and others == ["pkg-1.0.whl"] and all(content(f"{base}/out/{f}") == f.encode() for f in ("pkg-1.0.whl", "x.txt")), "input")
    w0, w1 = before[f"{DI}/WHEEL"].decode().splitlines(), after[f"{DI}/WHEEL"].decode().splitlines()
    keep = [x for x in w0 if not x.startswith("Tag:")]
    if tags:
        ok = [x for x in w1 if x and not x.startswith("Tag:")] == [x for x in keep if x]
    else:
        ok = w0 == w1 and out == os.path.basename(whl)
    sx.check(ok, "metadata", lambda: f"{w0} {w1}")
