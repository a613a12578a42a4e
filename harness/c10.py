"""Which run path entries survive."""
import os
from pathlib import Path

BOUNDS = {
    "quick": "an existing run path of 1 or 2 entries, or of 3 of which one, in the middle, varies like this and the others are among 6; each any of 14 heads (tokens in both spellings, once and twice, absolute inside / outside / sibling with "
             "the same prefix, relative, empty) times 13 tails (.., ., doubled slash, symlinks, also behind tokens, out of and back into the wheel); new entry one of 3; "
             "file given by absolute or relative name",
    "thorough": "3 and 4 entries, the fully varying one at each place, by absolute and relative name",
}
ASSUMPTIONS = ["os.path.realpath / pathlib.Path.resolve", "the process is 64-bit Linux (what $LIB means)"]
SAMPLE_P = 0.5
LABELS = {"rp": ["entries kept", "new entry present", "none outside"]}

HEADS = ["$ORIGIN", "${ORIGIN}", "$LIB", "${LIB}", "$PLATFORM", "${PLATFORM}", "@W", "@Wx", "@O", "", "rel", "/$ORIGIN", "${ORIGIN}${ORIGIN}", "$ORIGIN$ORIGIN"]
TAILS = ["", "/", "/..", "/../..", "/../../..", "/../../../wx", "/../pkg.libs", "//x/.", "/${LIB}/x", "/$PLATFORM", "/sub/../$LIB", "/out", "/out/../w/pkg"]
FEW = ["$ORIGIN", "${ORIGIN}/../pkg.libs", "@W", "@Wx", "rel", ""]
NEW = ["$ORIGIN/../pkg.libs", "$ORIGIN", "/elsewhere"]


def jobs(tier):
    if tier == "quick":
        return [("rp", [1, True, [0]]), ("rp", [2, False, [0, 1]]), ("rp", [3, True, [1]])]
    return [("rp", [n, a, full]) for n, fulls in ((1, [[0]]), (2, [[0, 1]]), (3, [[0, 1], [2]]), (4, [[0], [1], [3]])) for full in fulls
            for a in (True, False)]


def expand(e, origin):
    lib, plat = "lib64", os.uname().machine
    out, i = "", 0
    subst = {"ORIGIN": origin, "LIB": lib, "PLATFORM": plat}
    while i < len(e):
        for n, v in subst.items():
            for form in ("${%s}" % n, "$" + n):
                if e.startswith(form, i):
                    out += v
                    i += len(form)
                    break
            else:
                continue
            break
        else:
            out += e[i]
            i += 1
    return out


def run(sx, name, params):
    from auditwheel.patcher import ElfPatcher
    from auditwheel.repair import append_rpath_within_wheel

    n, absolute, full = params
    base = os.path.realpath(sx.scratch)
    w = os.path.join(base, "w")
    for d in ("w/pkg/sub", "w/pkg.libs", "wx", "o/w/pkg"):
        os.makedirs(os.path.join(base, d), exist_ok=True)
    os.symlink(os.path.join(base, "o"), os.path.join(w, "pkg/sub/out"))
    os.symlink(w, os.path.join(base, "o/back"))
    for d in ("lib64", os.uname().machine):
        os.symlink(os.path.join(base, "o"), os.path.join(w, "pkg/sub", d))
    lib = Path(w) / "pkg" / "sub" / "m.so"
    lib.write_bytes(b"")

    def named(xs):
        return [x.replace("@Wx", w + "x").replace("@W", w).replace("@O", base + "/o/back") for x in xs]

    entries, few = named(h + t for h in HEADS for t in TAILS), named(FEW)
    old = [sx.choice(f"e{i}", entries if i in full else few) for i in range(n)]
    new = sx.choice("new", NEW)

    class P(ElfPatcher):
        _sx_ok_ = True

        def get_rpath_direct(self, file_name):
            return sx.join(":", old)

        def apply_updates(self):
            pass

    p = P("linux_x86_64")
    cwd = os.getcwd()
    os.chdir(w)
    try:
        append_rpath_within_wheel(lib if absolute else Path("pkg/sub/m.so"), new, Path(w), p)
    finally:
        os.chdir(cwd)
    got = p.get_rpath(lib).split(":")
    got = list(got)

    def ok(e):
        f = expand(e, os.path.dirname(str(lib)))
        if not f.startswith("/"):
            return False
        r = os.path.realpath(f)
        return r == w or r.startswith(w + "/")

    want = []
    for e in [*old, new]:
        if (e is new or sx.lift(ok, e)) and not sx.Or(*[sx.eq(e, x) for x in want]):
            want.append(e)
    sx.observe("rpath", [sx.lift(lambda g: g.replace(base, "@"), g) for g in got])
    sx.check(len(got) == len(want) and sx.And(*[sx.eq(a, b) for a, b in zip(got, want)]), "entries kept",
             lambda: f"got {got}, want {want}")
    sx.check(sx.Or(*[sx.eq(g, new) for g in got]), "new entry present")
    sx.check(sx.And(*[sx.Or(sx.eq(g, new), sx.lift(ok, g)) for g in got]), "none outside")
