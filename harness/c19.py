"""Pending ELF edits and the commands they become."""
import os
from pathlib import Path

from symx import world
from symx.world import HOOKS, LOG, Elf, G, elf_state, write_elf

BOUNDS = {
    "quick": "two ELF files, one of them also known by a symbolic link; every sequence of 3 operations (4 on one file) out of soname, "
             "replacement, removal of two names, run path, run path removal, flush, move; names, run paths, initial needed lists and initial run path "
             "any of three each; patchelf, lief-patchelf, none; read-back checked after every operation; versions of patchelf 0..2.0..20.0..9",
    "thorough": "4 operations over both files, 5 over one",
}
ASSUMPTIONS = ["patchelf does what its options say (stand-in, validated against the real patchelf on sampled paths)",
               "replacements are not chained (no new name is itself replaced) and a file is moved to a fresh name"]
SAMPLE_P = 0.5
LABELS = {
    "ops": ["read back", "refused exactly on conflict", "effect = edits one by one", "one command per edited file", "nothing pending"],
    "none": ["raises exactly when something is pending", "nothing pending", "no command"],
    "version": ["old patchelf refused"],
}
NAMES = ["liba.so", "libb.so.1", "libc-3.so"]
NEWOF = {n: "new-" + n for n in NAMES}
KINDS = ["soname", "replace", "remove", "rpath", "clear"]


def jobs(tier):
    q = tier == "quick"
    return [("ops", ["patchelf", "", 3 if q else 4, 3]),
            ("ops", ["lief-patchelf", "linux_x86_64", 4 if q else 5, 1]),
            ("ops", ["patchelf", "android_24_x86_64", 3 if q else 4, 1]),
            ("none", [3 if q else 4]), ("version", [])]


class File:
    """what the file is after every edit so far, each applied at once"""

    def __init__(self, spec):
        self.needed = [(True, n) for n in spec.needed]
        self.needed = world.entries(spec.needed)
        self.soname, self.rpath, self.runpath = spec.soname, spec.rpath, spec.runpath
        self.removed, self.replaced = [], []       # since the last flush
        self.dirty = False


def run(sx, name, params):
    from auditwheel.patcher import ElfPatcher
    if name == "version":
        n = [sx.int("a", 0, 2), sx.int("b", 0, 20), sx.int("c", 0, 9)]
        form = sx.conc(sx.choice("form", [3, 2, 1]))
        v = [sx.conc(x) for x in n[:form]]
        HOOKS["tool"] = lambda argv: (0, f"patchelf {'.'.join(map(str, v))}\n".encode(), b"") if argv[1:] == ["--version"] else None
        try:
            ElfPatcher.get_patcher("patchelf")
            ok = True
        except ValueError:
            ok = False
        sx.check(sx.eq(ok, tuple(v) >= (0, 14, 5)), "old patchelf refused")
        return
    base = os.path.realpath(sx.scratch)
    variant, platform, nops, nh = (("none", "", params[0], 2) if name == "none" else params)
    init = sx.choice("init", ["$ORIGIN/x", None] if nh == 1 or sx.tier != "quick" else ["$ORIGIN/x"])
    specs, handles = [], []
    for i in range(2 if nh > 1 else 1):
        spec = Elf(needed=[G(sx.bool(f"has{i}{j}"), x) for j, x in enumerate(NAMES)], soname=f"lib{i}.so",
                   rpath=sx.conc(init) if i == 0 else None,
                   runpath="/r:$ORIGIN" if i else None)
        p = os.path.join(base, "d", f"lib{i}.so")
        write_elf(p, spec)
        specs.append(File(spec))
        handles.append([i, Path(p)])
    if nh == 3:
        ln = os.path.join(base, "ln.so")
        os.symlink(handles[0][1], ln)
        handles.append([0, Path(ln)])
    pt = ElfPatcher.get_patcher(variant, platform)
    LOG.clear()
    moved = False

    def oracle_flush():
        for f in specs:
            f.removed, f.replaced, f.dirty = [], [], False

    def count():
        return [a for a in LOG if "--print-rpath" not in a]

    def flush(final):
        pend = [f.dirty for f in specs]
        LOG.clear()
        if name == "none":
            try:
                pt.apply_updates()
                raised = False
            except NotImplementedError:
                raised = True
            sx.check(sx.eq(raised, any(pend)), "raises exactly when something is pending")
            sx.check(len(count()) == 0, "no command")
            try:
                pt.apply_updates()
                again = False
            except NotImplementedError:
                again = True
            sx.check(not again, "nothing pending")
            oracle_flush()
            return
        pt.apply_updates()
        targets = sorted(os.path.basename(os.path.realpath(a[-1])) for a in count())
        want = sorted(os.path.basename(h[1]) for h, d in zip(handles, pend) if d)
        sx.check(targets == want, "one command per edited file", lambda: f"{targets} != {want}")
        LOG.clear()
        pt.apply_updates()
        sx.check(len(count()) == 0, "nothing pending")
        oracle_flush()

    for k in range(nops):
        kinds = KINDS + (["flush"] if k else []) + (["move"] if not moved and k else [])
        if name == "none":
            kinds = [x for x in kinds if x != "move"]
        kind = sx.conc(sx.choice(f"k{k}", kinds))
        if kind == "flush":
            flush(False)
            continue
        if kind == "move":
            moved = True
            old = handles[0][1]
            new = old.parent / "moved.so"
            os.rename(old, new)
            old.write_text("#!/bin/sh\n")
            pt.update_elf_path(old, new)
            handles[0][1] = new
            if nh == 3:
                os.unlink(handles[2][1])
                os.symlink(new, handles[2][1])
            continue
        h = sx.conc(sx.choice(f"h{k}", list(range(len(handles))))) if k or nh == 3 and name != "none" else 0
        i, path = handles[h]
        f = specs[i]
        if kind == "soname":
            v = sx.choice(f"v{k}", ["s-0.so", "s-1.so"])
            pt.set_soname(path, v)
            f.soname, f.dirty = v, True
        elif kind == "rpath":
            v = sx.choice(f"v{k}", ["$ORIGIN/../p.libs", "$ORIGIN", ""])
            pt.set_rpath(path, v)
            f.rpath, f.runpath, f.dirty = (None, v, True) if platform.startswith("android") else (v, None, True)
        elif kind == "clear":
            pt.clear_rpath(path)
            f.rpath = f.runpath = None
            f.dirty = True
        elif kind == "replace":
            o = sx.choice(f"v{k}", NAMES)
            nw = sx.lift(lambda x: NEWOF[x], o)
            clash = sx.Or(*[sx.Or(sx.eq(r, o), sx.eq(r, nw)) for r in f.removed])
            try:
                pt.replace_needed(path, (o, nw))
                raised = False
            except ValueError:
                raised = True
            sx.check(sx.Iff(raised, clash), "refused exactly on conflict")
            if not raised:
                f.needed = [(g, sx.If(sx.eq(x, o), nw, x)) for g, x in f.needed]
                f.replaced.append((o, nw))
                f.dirty = True
        elif kind == "remove":
            rs = [sx.choice(f"v{k}", NAMES), sx.choice(f"w{k}", [NAMES[0], NEWOF[NAMES[0]], "absent.so"])]
            clash = sx.Or(*[sx.Or(sx.eq(r, a), sx.eq(r, b)) for r in rs for a, b in f.replaced])
            try:
                pt.remove_needed(path, *rs)
                raised = False
            except ValueError:
                raised = True
            sx.check(sx.Iff(raised, clash), "refused exactly on conflict")
            if not raised:
                f.needed = [(sx.And(g, *[sx.Not(sx.eq(x, r)) for r in rs]), x) for g, x in f.needed]
                f.removed += rs
                f.dirty = True
        if name != "none":
            ok = []
            for j, q in handles:
                g = specs[j]
                want = g.runpath if g.runpath is not None else g.rpath
                ok.append(sx.eq(pt.get_rpath(q), "" if want is None else want))
            sx.check(sx.And(*ok), "read back")
    flush(True)
    if name == "none":
        return
    ok, seen = [], []
    for j, q in handles:
        g = specs[j]
        st = elf_state(q)
        seen.append((st, g))
        ok.append(sx.eq(st.soname, g.soname))
        for a, b in ((st.rpath, g.rpath), (st.runpath, g.runpath)):
            ok.append(sx.eq(a, b) if a is not None and b is not None else a is b)
        for x in NAMES + list(NEWOF.values()):
            ok.append(sx.Iff(sx.Or(*[sx.And(gd, sx.eq(n, x)) for gd, n in st.needed]),
                             sx.Or(*[sx.And(gd, sx.eq(n, x)) for gd, n in g.needed])))
    sx.check(sx.And(*ok), "effect = edits one by one",
             lambda: str([(vars(a), vars(b)) for a, b in seen]))
