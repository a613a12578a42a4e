"""Where needed libraries are found."""
import os
from pathlib import Path

from symx.world import Elf, set_env, set_text, write_elf

BOUNDS = {
    "quick": "one library wanted by the main file, and one wanted by a library: RPATH and/or RUNPATH (present, empty, of missing directories, in either "
             "order of tags) of both files, 1 or 2 directories each, environment, configured directories, interpreter directory; in each directory the "
             "candidate is absent, compatible or not; one candidate and the main file with any class, byte order, machine (4) and OS ABI (5); "
             "12 odd candidates (links, loops, directories, other files); paths from the environment and ld.so.conf",
    "thorough": "every combination of two absent candidates",
}
ASSUMPTIONS = ["lookup runs on the real file system of a scratch directory",
               "musl's own path file is read from the host's /etc (covered by C15, not here)"]
LABELS = {k: ["found where the loader finds it", "needed as recorded", "not found"] for k in ("main", "second")}
LABELS["compat"] = ["found where the loader finds it"]
LABELS["odd"] = ["found where the loader finds it"]
LABELS["default"] = ["found where the loader finds it"]
SAMPLE_P = 0.2

TAGS = ["none", "rpath", "runpath", "both", "both missing", "both empty", "rpath+missing"]


def jobs(tier):
    q = tier == "quick"
    return [("main", [t, q]) for t in TAGS] + [("second", [t, u, q]) for t in TAGS[:5] for u in TAGS[:5]] + [
        ("compat", []), ("odd", []), ("default", [])]


def tags(t, rdirs, udirs, base):
    """(DT_RPATH, DT_RUNPATH, directories of each in effect)"""
    r = ":".join(rdirs)
    u = ":".join(udirs)
    missing = os.path.join(base, "missing")
    return {
        "none": (None, None, [], []), "rpath": (r, None, rdirs, []), "runpath": (None, u, [], udirs), "both": (r, u, [], udirs),
        "both missing": (r, missing, [], []), "both empty": (r, "", [], []), "rpath+missing": (r + ":" + missing, None, rdirs, []),
    }[t]


def candidates(sx, dirs, lib, quick, **k):
    """a candidate in every directory, lacking in one; -> [(dir, condition)]"""
    absent = sx.conc(sx.choice("absent_" + lib, [None, *range(len(dirs))]))
    if not quick:
        absent2 = sx.conc(sx.choice("absent2_" + lib, [None, *range(len(dirs))]))
        absent = (absent, absent2)
    else:
        absent = (absent,)
    out = []
    for i, d in enumerate(dirs):
        os.makedirs(d, exist_ok=True)
        if i in absent:
            continue
        ok = sx.bool(f"ok_{lib}_{os.path.basename(d)}")
        write_elf(os.path.join(d, lib), Elf(machine=sx.If(ok, "EM_X86_64", "EM_AARCH64"), **k))
        out.append((d, ok))
    return out


def expect(sx, cands, order):
    """the directory of the first fitting candidate"""
    have = dict(cands)
    want = None
    for d in reversed(order):
        if d in have:
            want = sx.If(have[d], d, want)
    return want


def verify(sx, t, lib, want):
    got = t.libraries[lib]
    d = None if got.path is None else os.path.dirname(got.path)
    sx.observe("dir", None if d is None else os.path.basename(d))
    sx.check(sx.eq(d, want), "found where the loader finds it", lambda: f"{lib}: {got.path}, want {want}")
    if got.path is None:
        sx.check(got.realpath is None, "not found")
    else:
        sx.check(sx.And(got.soname == lib, os.path.samefile(got.realpath, os.path.join(d, lib)), os.path.basename(got.path) == lib),
                 "found where the loader finds it")
    return d


def run(sx, name, params):
    from auditwheel.lddtree import ld_paths_from_arg, ldd
    base = os.path.realpath(sx.scratch)

    def at(*ds):
        out = [os.path.join(base, d) for d in ds]
        for d in out:
            os.makedirs(d, exist_ok=True)
        return out

    main = os.path.join(base, "m", "main.so")
    if name == "main":
        tag, q = params
        R, U = at("R1", "R2"), at("U1", "U2")
        E, C = at("E1"), at("C1", "C2")
        I = at("I")  # noqa: E741
        r, u, rd, ud = tags(tag, R, U, base)
        interp = sx.conc(sx.bool("interp"))
        cands = candidates(sx, R + U + E + C + I, "liba.so", q)
        write_elf(main, Elf(needed=["liba.so", "liba.so"] if interp else ["liba.so"], rpath=r, runpath=u,
                            interp=I[0] + "/ld-linux-x86-64.so.2" if interp else None))
        t = ldd(Path(main), ldpaths={"conf": C, "env": E, "interp": []})
        d = verify(sx, t, "liba.so", expect(sx, cands, rd + ud + E + C + (I if interp else [])))
        sx.check(sx.And(list(t.needed) == (["liba.so"] * (2 if interp else 1)), sx.eq(t.interpreter, I[0] + "/ld-linux-x86-64.so.2" if interp else None),
                        set(t.libraries) == {"liba.so"} | ({"ld-linux-x86-64.so.2"} if interp else set())), "needed as recorded")
        if d is not None:
            sx.check(t.libraries["liba.so"].needed == () and t.libraries["liba.so"].platform is not None, "needed as recorded")
        sx.reach("not found")
    elif name == "second":
        mt, at_, q = params
        R, U, A, B, E, C = at("RM"), at("UM"), at("RA"), at("UA"), at("E"), at("C1", "C2")
        r, u, rd, ud = tags(mt, R, U, base)
        r2, u2, ad, bd = tags(at_, ["$ORIGIN/../RA"], ["${ORIGIN}/../UA"], base)
        ad, bd = [A[0]] if ad else [], [B[0]] if bd else []
        cands = candidates(sx, R + U + A + B + E + C, "libb.so", q, needed=["libgone.so", "liba.so"])
        write_elf(os.path.join(C[0], "liba.so"), Elf(needed=["libb.so"], rpath=r2, runpath=u2))
        direct = sx.conc(sx.bool("direct"))
        # wanted by the main file afterwards: what was found stays
        write_elf(main, Elf(needed=["liba.so", "libb.so"] if direct else ["liba.so"], rpath=r, runpath=u))
        t = ldd(Path(main), ldpaths={"conf": C, "env": E, "interp": []})
        d = verify(sx, t, "libb.so", expect(sx, cands, rd + ad + bd + E + ud + C))
        sx.check(t.libraries["liba.so"].path == os.path.join(C[0], "liba.so") and list(t.libraries["liba.so"].needed) == ["libb.so"]
                 and list(t.needed) == (["liba.so", "libb.so"] if direct else ["liba.so"]), "needed as recorded")
        if d is not None:
            sx.check(list(t.libraries["libb.so"].needed) == ["libgone.so", "liba.so"], "needed as recorded")
            sx.check(t.libraries["libgone.so"].path is None and t.libraries["libgone.so"].realpath is None, "not found")
        else:
            sx.check("libgone.so" not in t.libraries, "not found")
    elif name == "compat":
        C = at("C1", "C2", "C3")
        abis = ["ELFOSABI_SYSV", "ELFOSABI_LINUX", "ELFOSABI_FREEBSD", "ELFOSABI_SOLARIS"]
        hdr = []
        for who in ("main", "cand"):
            hdr.append(dict(elfclass=sx.choice("class_" + who, [64, 32]), little=sx.bool("little_" + who),
                            machine=sx.choice("machine_" + who, ["EM_X86_64", "EM_AARCH64", "EM_PPC64", "EM_MIPS"]),
                            osabi=sx.choice("osabi_" + who, abis)))
        m, c = hdr
        write_elf(os.path.join(C[0], "liba.so"), Elf(**c))
        # never fits, and one that is just like the main file
        write_elf(os.path.join(C[1], "liba.so"), Elf(**{**m, "machine": "EM_SPARC"}))
        write_elf(os.path.join(C[2], "liba.so"), Elf(**m))
        write_elf(main, Elf(needed=["liba.so"], **m))
        t = ldd(Path(main), ldpaths={"conf": C, "env": [], "interp": []})
        linux = ["ELFOSABI_SYSV", "ELFOSABI_LINUX"]
        fits = sx.And(*[sx.eq(m[k], c[k]) for k in ("elfclass", "little", "machine")],
                      sx.Or(sx.eq(m["osabi"], c["osabi"]), sx.And(sx.in_(m["osabi"], linux), sx.in_(c["osabi"], linux))))
        verify(sx, t, "liba.so", sx.If(fits, C[0], C[2]))
    elif name == "odd":
        C, S = at("C1", "C2"), at("S", "S/sub", "S/sub/deep")
        kind = sx.conc(sx.choice("kind", ["file", "rel", "abs", "chain", "dangling", "self", "loop", "directory", "text", "empty", "cut", "dirlink",
                                          "dirlink chain", "dot self"]))
        ok = sx.bool("ok")
        spec = Elf(machine=sx.If(ok, "EM_X86_64", "EM_AARCH64"))
        p = os.path.join(C[0], "liba.so")
        good = kind in ("file", "rel", "abs", "chain", "dirlink", "dirlink chain")
        real = os.path.join(S[0], "real.so.1")
        first = C[0]
        if kind == "file":
            write_elf(p, spec)
            real = p
        elif good:
            write_elf(real, spec)
            if kind == "rel":
                os.symlink("../S/real.so.1", p)
            elif kind == "abs":
                os.symlink(real, p)
            elif kind == "chain":
                os.symlink("x.so", p)
                os.symlink("../S/sub/y.so", os.path.join(C[0], "x.so"))
                os.symlink("../real.so.1", os.path.join(S[1], "y.so"))
            else:
                # the directory itself is a link to one at another depth
                os.rmdir(C[0])
                os.symlink(S[2], C[0])
                os.symlink("../../real.so.1", os.path.join(S[2], "liba.so" if kind == "dirlink" else "z.so"))
                if kind != "dirlink":
                    os.symlink("z.so", os.path.join(S[2], "liba.so"))
        elif kind == "dangling":
            os.symlink("nowhere", p)
        elif kind == "self":
            os.symlink("liba.so", p)
        elif kind == "dot self":
            os.symlink("./liba.so", p)
        elif kind == "loop":
            os.symlink("x.so", p)
            os.symlink("../C1/liba.so", os.path.join(C[0], "x.so"))
        elif kind == "directory":
            os.mkdir(p)
        else:
            Path(p).write_bytes({"text": b"INPUT ( libreal.so )\n", "empty": b"", "cut": b"\x7fELF\2\1\1"}[kind])
        write_elf(os.path.join(C[1], "liba.so"), Elf())
        write_elf(main, Elf(needed=["liba.so"]))
        t = ldd(Path(main), ldpaths={"conf": C, "env": [], "interp": []})
        got = t.libraries["liba.so"]
        want = sx.If(ok, first, C[1]) if good else C[1]
        d = verify(sx, t, "liba.so", want)
        if d == first:
            sx.check(str(got.realpath) == real, "found where the loader finds it", lambda: f"{got.realpath} want {real}")
    else:
        A, L, F = at("A"), at("L"), at("F")
        how = sx.conc(sx.choice("how", ["arg", "no arg"]))
        if how == "arg":
            set_text("/etc/ld.so.conf", f"{F[0]}\n")
        else:
            set_text("/etc/ld.so.conf", f"# {A[0]}\n{F[0]} # comment\n")
        e1 = sx.conc(sx.choice("aw", [None, "", A[0], f"{A[0]}:{base}/none"]))
        e2 = sx.conc(sx.choice("ll", [None, "", L[0]]))
        set_env("AUDITWHEEL_LD_LIBRARY_PATH", e1)
        set_env("LD_LIBRARY_PATH", e2)
        G = at("G")
        cands = candidates(sx, A + L + F + G, "liba.so", True)
        write_elf(main, Elf(needed=["liba.so", "libc.so.6.none"]))
        t = ldd(Path(main), ldpaths=ld_paths_from_arg(G[0] if how == "arg" else None))
        ed = A if e1 else []
        if how == "arg":
            want = expect(sx, cands, ed + G)
        else:
            want = expect(sx, cands, ed + (L if e2 else []) + F)
        verify(sx, t, "liba.so", want)
