"""What a file is and what it asks for."""
import os
from pathlib import Path

from harness.wheelworld import G, Sym, analyze, elf, make_wheel, wheel_name
from symx.world import write_elf

BOUNDS = {
    "quick": "3 symbols with any of 9 names (the three init forms of the file's own module and of others, near misses), section (3), type (4), binding (2) "
             "under 8 file names; 2 symbols out of 10 UCS2 and PyFPE names with the same attributes; version needs of 3 libraries (loaders included) with any "
             "subset of 3 versions each; wheels of two files, each a Python 2, Python 3 or no extension, with UCS2, PyFPE and version needs",
    "thorough": "4 symbols",
}
ASSUMPTIONS = ["pyelftools (stand-in validated against it)", "a file does not define init functions of both Python generations"]
LABELS = {"ext": ["extension", "generation"], "flags": ["UCS2", "PyFPE"], "versions": ["versioned requirements"],
          "wheel": ["UCS2 constraint", "PyFPE constraint", "versions of every file", "overall"]}
SAMPLE_P = 0.1

FILES = {"mod.so": "mod", "mod.cpython-312-x86_64-linux-gnu.so": "mod", "mod.abi3.so": "mod", "mod": "mod", "_mod.so": "_mod", "mod2.so": "mod2", "libmod.so.1": "libmod",
         "mod-x.so": "mod-x"}


def jobs(tier):
    q = tier == "quick"
    return [("ext", [f, 3 if q else 4]) for f in FILES] + [("flags", [2 if q else 3]), ("versions", []), ("wheel", [])]


def syms(sx, n, names, first=0):
    out = []
    for i in range(n):
        out.append(Sym(sx.choice(f"sym{i}", names), sx.choice(f"shndx{i}", ["SHN_UNDEF", "1", "SHN_ABS"]),
                       sx.choice(f"type{i}", ["STT_FUNC", "STT_OBJECT", "STT_NOTYPE", "STT_GNU_IFUNC"]),
                       sx.choice(f"bind{i}", ["STB_GLOBAL", "STB_WEAK"])))
    return out


def run(sx, name, params):
    from auditwheel import elfutils
    base = os.path.realpath(sx.scratch)
    if name == "wheel":
        wheel(sx)
        return

    if name == "ext":
        fn, n = params
        mod = FILES[fn]
        names = ["init" + mod, "PyInit_" + mod, "_cffi_pypyinit_" + mod, "initmo", "PyInit_mod2", "PyInit__mod", "xPyInit_" + mod, "PyInit_" + mod.upper(), "PyInit_"]
        s = syms(sx, n, names)
        p = Path(write_elf(os.path.join(base, fn), elf(symbols=s)))
        defs = {k: sx.Or(*[sx.And(sx.eq(x.name, k), sx.eq(x.type, "STT_FUNC"), sx.Not(sx.eq(x.shndx, "SHN_UNDEF"))) for x in s]) for k in set(names)}
        py3 = defs["PyInit_" + mod]
        py2 = sx.Or(defs["init" + mod], defs["_cffi_pypyinit_" + mod])
        sx.assume(sx.Not(sx.And(py2, py3)))
        n_ = 0
        for q, e in elfutils.elf_file_filter([p]):
            n_ += 1
            is_ext, ver = elfutils.elf_is_python_extension(q, e)
            sx.check(sx.Iff(is_ext, sx.Or(py2, py3)), "extension", lambda: f"{is_ext} {ver}")
            sx.check(sx.eq(ver, sx.If(py3, 3, sx.If(py2, 2, None))), "generation", lambda: f"{is_ext} {ver}")
        assert n_ == 1
    elif name == "flags":
        names = ["PyUnicodeUCS2_AsUTF8String", "xPyUnicodeUCS2_x", "PyUnicodeUCS4_AsUTF8String", "PyUnicodeUCS2", "PyUnicode_UCS2_", "PyFPE_jbuf", "PyFPE_dummy",
                 "PyFPE_counter", "PyFPE_jbuf2", "pyfpe_jbuf"]
        s = syms(sx, params[0], names)
        p = Path(write_elf(os.path.join(base, "m.so"), elf(symbols=s)))
        for q, e in elfutils.elf_file_filter([p]):
            ucs2 = any(True for _ in elfutils.elf_find_ucs2_symbols(e))
            fpe = elfutils.elf_references_pyfpe_jbuf(e)
            sx.check(sx.Iff(ucs2, sx.Or(*[sx.And(sx.in_(x.name, names[:2]), sx.eq(x.shndx, "SHN_UNDEF"), sx.eq(x.type, "STT_FUNC")) for x in s])), "UCS2")
            sx.check(sx.Iff(fpe, sx.Or(*[sx.And(sx.in_(x.name, names[5:8]), sx.eq(x.shndx, "SHN_UNDEF"), sx.in_(x.type, ["STT_FUNC", "STT_NOTYPE"])) for x in s])),
                     "PyFPE")
    else:
        libs = [sx.conc(sx.choice(f"lib{i}", ["libc.so.6", "ld-linux-x86-64.so.2", "ld64.so.2", "ld64.so.1", "ld64.so.3", "libld-linux.so", "ld-lsb-x86-64.so.3"])) for i in range(2)] + ["libm.so.6"]
        vers = ["GLIBC_2.17", "GLIBC_2.5", "X_1"]
        g = {(i, v): sx.bool(f"v{i}{v}") for i in range(3) for v in vers}
        p = Path(write_elf(os.path.join(base, "m.so"), elf(verneed=[(lib, [G(g[i, v], v) for v in vers]) for i, lib in enumerate(libs)])))
        for q, e in elfutils.elf_file_filter([p]):
            got = list(elfutils.elf_find_versioned_symbols(e))
            want = {}
            for i, lib in enumerate(libs):
                if not (lib.startswith("ld-linux") or lib in ("ld64.so.1", "ld64.so.2")):
                    for v in vers:
                        want[lib, v] = sx.Or(want.get((lib, v), False), g[i, v])
            sx.check(sx.And(*[sx.Iff(sx.Or(*[sx.And(sx.eq(a, k[0]), sx.eq(b, k[1])) for a, b in got]), w) for k, w in want.items()],
                            *[sx.Or(*[sx.And(sx.eq(a, k[0]), sx.eq(b, k[1])) for k in want]) for a, b in got]), "versioned requirements", lambda: got)


def wheel(sx):
    specs, facts = {}, []
    for i in range(2):
        kind = sx.conc(sx.choice(f"kind{i}", ["py2", "py3", "none"]))
        ucs, fpe = sx.bool(f"ucs{i}"), sx.bool(f"fpe{i}")
        v = {x: sx.bool(f"v{i}{x}") for x in ("GLIBC_2.5", "GLIBC_2.17")}
        s = [Sym("PyUnicodeUCS2_Decode", guard=ucs), Sym("PyFPE_jbuf", guard=fpe, type="STT_NOTYPE")]
        if kind != "none":
            s.append(Sym(("init" if kind == "py2" else "PyInit_") + f"m{i}", shndx="1"))
        specs[f"pkg/m{i}.so"] = elf(symbols=s, needed=["libc.so.6"], verneed=[("libc.so.6", [G(g, x) for x, g in v.items()])])
        facts.append((kind, ucs, fpe, v))
    whl = make_wheel(sx.sub("in"), wheel_name("linux_x86_64", "cp27", "cp27mu"), specs)
    r = analyze(whl)
    ucs = sx.Or(*[f[1] for f in facts if f[0] == "py2"])
    fpe = sx.Or(*[f[2] for f in facts if f[0] != "none"])
    top, low = r.policies.highest.name, "linux_x86_64"
    sx.check(sx.eq(r.ucs_policy.name, sx.If(ucs, low, top)), "UCS2 constraint")
    sx.check(sx.eq(r.pyfpe_policy.name, sx.If(fpe, low, top)), "PyFPE constraint")
    got = r.versioned_symbols
    ok = [sx.Iff(sx.in_(x, got["libc.so.6"] if "libc.so.6" in got else ()), sx.Or(*[f[3][x] for f in facts])) for x in ("GLIBC_2.5", "GLIBC_2.17")]
    sx.check(sx.And(*ok, all(k == "libc.so.6" for k in got)), "versions of every file", lambda: str(got))
    sx.check(sx.Implies(sx.Or(ucs, fpe), sx.eq(r.overall_policy.name, low)), "overall")
