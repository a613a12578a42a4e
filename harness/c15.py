"""Search paths."""
import os
from pathlib import Path

from symx.world import write_lines

BOUNDS = {
    "quick": "path lists of 1 to 3 entries out of 24 (empty, both $ORIGIN forms, dots, doubled slashes, missing, a file, duplicates by "
             "normalisation) for a file named absolutely, relatively or in a directory with a backslash; ld.so.conf of 3 lines out of 26 "
             "(comments, blanks, includes: relative, absolute, pattern, several patterns, tab or several blanks) with an include tree of 5 files created in "
             "either order; ld-musl path file of 3 entries out of 8 with colon or newline; environment variables and --ldpaths out of 5",
    "thorough": "4 path entries, 4 configuration lines, 4 musl entries",
}
ASSUMPTIONS = ["directories are compared after lexical normalisation (no '..' behind a symbolic link in the alternatives)",
               "include files do not include themselves"]
LABELS = {"paths": ["path list", "ORIGIN without a file is an error"], "conf": ["configuration", "same when read again"], "musl": ["musl path file"],
          "env": ["environment", "--ldpaths"]}
SAMPLE_P = 0.1


def jobs(tier):
    q = tier == "quick"
    out = [("paths", [n, how]) for n in ((1, 2) if q else (1, 2, 3)) for how in ("abs", "rel", "back", "none")]
    out += [("paths", [3 if q else 4, "abs"]), ("conf", [2, 0]), ("conf", [3, 1]), ("musl", [3 if q else 4]), ("env", [])]
    return out if q else out + [("conf", [4, 0])]


def layout(sx):
    b = os.path.realpath(sx.scratch)
    for d in ("d", "d2", "d3", "d/sub", "e\\1/x", "o", "cwd/rel", "include dir", "etc/c"):
        os.makedirs(os.path.join(b, d), exist_ok=True)
    with open(os.path.join(b, "f"), "w"):
        pass
    return b


def ref_paths(s, origin, cwd):
    """existing directories of a colon-separated list"""
    out = []
    for e in s.split(":"):
        if e == "":
            p = cwd
        else:
            p = e.replace("${ORIGIN}", "\0").replace("$ORIGIN", "\0").replace("\0", origin or "")
        q = []
        for c in p.split("/"):
            if c == "..":
                q and q.pop()
            elif c not in ("", "."):
                q.append(c)
        p = ("/" if p.startswith("/") else "") + "/".join(q)
        if os.path.isdir(p) and p not in out:
            out.append(p)
    return out


def run(sx, name, params):
    from auditwheel import lddtree
    b = layout(sx)
    old = os.getcwd()
    cwd = os.path.join(b, "cwd")
    os.chdir(cwd)
    try:
        if name == "paths":
            paths(sx, params, lddtree, b, cwd)
        elif name == "conf":
            conf(sx, params, lddtree, b)
        elif name == "musl":
            musl(sx, params, lddtree, b)
        else:
            env(sx, lddtree, b, cwd)
    finally:
        os.chdir(old)


def paths(sx, params, lddtree, b, cwd):
    n, how = params
    alts = ["", "$ORIGIN", "${ORIGIN}", "$ORIGIN/..", "${ORIGIN}/sub", "$ORIGIN/../d2", "@/d", "@/d/", "@/d/../d2", "@//d", "@/d/.", "/nonexistent",
            "@/f", "rel", "@/d2", "@/d/sub", "$ORIGIN/sub/", "$ORIGINAL", "@/d3/$ORIGIN", "/", "@/d/nonexistent/..", "$LIB", "@/d3/$ORIGIN}", "@/d3/${ORIGIN"]
    es = [sx.choice(f"e{i}", [a.replace("@", b) for a in alts]) for i in range(n)]
    s = sx.join(":", es)
    path, origin = {"abs": (f"{b}/d/lib.so", f"{b}/d"), "rel": ("../d/lib.so", f"{b}/d"),
                    "back": (f"{b}/e\\1/lib.so", f"{b}/e\\1"), "none": ("", None)}[how]
    uses = sx.Or(*[sx.lift(lambda e: "$ORIGIN" in e or "${ORIGIN}" in e, e) for e in es])
    try:
        got = lddtree.parse_ld_paths(s, path=path) if path else lddtree.parse_ld_paths(s)
    except ValueError:
        sx.check(sx.And(path == "", uses), "ORIGIN without a file is an error")
        return
    got = list(got)
    sx.check(sx.Or(path != "", sx.Not(uses)), "ORIGIN without a file is an error")
    if n == 1:
        want = sx.lift(lambda e: tuple(ref_paths(e, origin, cwd)) if e else (), es[0])
    else:
        each = [sx.lift(lambda e: tuple(ref_paths(e, origin, cwd)), e) for e in es]
        out = []
        for e in each:
            for x in sx.conc(e):
                if x not in out:
                    out.append(x)
        want = tuple(out)
    sx.observe("paths", [sx.lift(lambda g: g.replace(b, "@"), g) for g in got])
    sx.check(sx.lift(lambda w, *g: w == g, want, *got), "path list", lambda: f"{got} want {want}")


def conf(sx, params, lddtree, b):
    n, flip = params
    alts = ["", "# comment", "   ", "@/d", "@/d # c", "  @/d2\t", "@/d/", "@/d/../d2", "/missing", "include c/*.conf", "include @/etc/c/a.conf",
            "include\tc/b.conf", "include c/b.conf c/a.conf", "include   c/b.conf", "include none*.conf", "hwcap 1 x", "@/d#@/d2", "@/d3",
            "include c/n.conf # x", "@/f", "@//d3", "@/include dir", "#include c/a.conf", "@/d2/./", "include c/missing.conf", "includex"]
    inc = {"a.conf": "@/d3\n\n@/d\n", "b.conf": "@/d2", "m.conf": "# nothing\n", "n.conf": "include z.inc\n@/d2\n", "z.inc": "@/d/sub\n"}
    for f in sorted(inc, reverse=bool(flip)):
        with open(os.path.join(b, "etc/c", f), "w") as h:
            h.write(inc[f].replace("@", b))
    ls = [sx.choice(f"l{i}", [a.replace("@", b) for a in alts]) for i in range(n)]
    cf = os.path.join(b, "etc", "ld.so.conf")
    write_lines(cf, ls)

    def ref(line, base, depth=0):
        line = line.split("#")[0].strip()
        w = line.split()
        if not w:
            return []
        if w[0] == "include" and len(w) > 1:
            out = []
            for pat in w[1:]:
                import fnmatch
                pat = os.path.join(base, pat)
                d, p = os.path.split(pat)
                fs = sorted(f for f in os.listdir(d) if fnmatch.fnmatchcase(f, p)) if os.path.isdir(d) else []
                for f in fs:
                    for x in inc[f].replace("@", b).split("\n"):
                        out += ref(x, d)
            return out
        p = os.path.normpath(line)
        return [p] if os.path.isdir(p) else []

    got = list(lddtree.parse_ld_so_conf(cf))
    each = [sx.lift(lambda e: tuple(ref(e, os.path.join(b, "etc"))), x) for x in ls]
    want = []
    for e in each:
        for x in sx.conc(e):
            if x not in want:
                want.append(x)
    sx.observe("paths", [sx.lift(lambda g: g.replace(b, "@"), g) for g in got])
    sx.check(sx.lift(lambda *g: list(g) == want, *got), "configuration", lambda: f"{got} want {want}")
    if flip:
        sx.reach("same when read again")
        return
    # reading the system configuration in between must not matter
    root = os.path.join(b, "")
    first = lddtree.load_ld_paths(None, root=root)["conf"]
    got2 = list(lddtree.parse_ld_so_conf(os.path.join(b, "etc", "ld.so.conf"), root=root))
    lddtree.load_ld_paths(lddtree.Libc.GLIBC, root=root)
    got3 = list(lddtree.parse_ld_so_conf(os.path.join(b, "etc", "ld.so.conf"), root=root))
    sx.check(len(got2) == len(got3) and sx.And(*[sx.eq(x, y) for x, y in zip(got2, got3)]) and
             not any(sx.conc(x) in ("/usr/lib", "/lib") for x in got3), "same when read again", lambda: f"{got2} {got3} {first}")


def musl(sx, params, lddtree, b):
    alts = ["/d", "/d2", "", " /d3 ", "/missing", "/d/", "/d/sub", "/d"]
    k = params[0]
    es = [sx.choice(f"e{i}", alts) for i in range(k)]
    sep = sx.conc(sx.choice("sep", [":", "\n"]))
    if sep == ":":
        write_lines(os.path.join(b, "etc", "ld-musl-x86_64.path"), [sx.join(":", es)])
    else:
        write_lines(os.path.join(b, "etc", "ld-musl-x86_64.path"), es)
    got = lddtree.load_ld_paths(lddtree.Libc.MUSL, root=b)["conf"]
    got = [os.path.normpath(sx.conc(g)) for g in got]
    got = list(dict.fromkeys(g for g in got if os.path.isdir(g)))
    want = []
    for e in es:
        e = sx.conc(sx.lift(str.strip, e))
        p = os.path.normpath(b + e)
        if e and os.path.isdir(p) and p not in want:
            want.append(p)
    sx.observe("paths", [g.replace(b, "@") for g in got])
    sx.check(got == want, "musl path file", lambda: f"{got} want {want}")


def env(sx, lddtree, b, cwd):
    alts = [None, "", f"{b}/d", f"{b}/d2:{b}/d", f":{b}/d3:/missing"]
    vals = {}
    for v in ("AUDITWHEEL_LD_LIBRARY_PATH", "LD_LIBRARY_PATH"):
        vals[v] = sx.conc(sx.choice(v, alts))
        if vals[v] is not None:
            os.environ[v] = vals[v]
    arg = sx.conc(sx.choice("arg", alts))
    got = lddtree.ld_paths_from_arg(arg)
    aw, ll = vals["AUDITWHEEL_LD_LIBRARY_PATH"] or "", vals["LD_LIBRARY_PATH"] or ""

    def ref(s):
        return ref_paths(s, None, cwd) if s else []

    if arg is None:
        sx.check(got is None, "--ldpaths")
    else:
        sx.check(got["conf"] == ref(arg) and got["env"] == ref(aw), "--ldpaths", lambda: got)
    both = lddtree.load_ld_paths(lddtree.Libc.GLIBC)["env"]
    sx.observe("env", [x.replace(b, "@") for x in both])
    sx.check(both == ref(":".join(x for x in (aw, ll) if x)), "environment", lambda: both)
