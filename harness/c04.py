"""Instruction-set requirements."""
import os

from harness.common import oracle_policies
from harness.wheelworld import G, Note, analyze, elf, make_wheel, pyinit, wheel_name, write_elf

ISA, FEAT, USED = 0xC0008002, 0xC0000002, 0xC0010002
BOUNDS = {
    "quick": "one extension with any 32-bit ISA-needed value, GNU property note of any of 8 shapes (other notes, note sections and properties before and after it, other owner, "
             "other note type, other size); a wheel of two extensions, an internal and an unneeded library, three external libraries (never, sometimes and "
             "always whitelisted) with any links from the first extension and the first library to them, each with an ISA level of none to v4; check "
             "on and off; two extensions finding different libraries of one name; an aarch64 wheel with the same note",
    "thorough": "links from both extensions",
}
ASSUMPTIONS = ["the architecture given for a wheel is a baseline one, as every file name gives it", "pyelftools (stand-in validated against it)", "one GNU property note with one ISA-needed property per file"]
LABELS = {"value": ["machine constraint", "unknown level is not accepted"], "graph": ["machine constraint", "bounds the overall tag"],
          "foreign": ["machine constraint"], "twins": ["machine constraint"]}
SAMPLE_P = 0.1

SHAPES = ["plain", "others", "owner", "type", "size", "second", "sections", "none"]


def jobs(tier):
    q = tier == "quick"
    return [("value", [s]) for s in SHAPES] + [
        ("graph", [w, 1 if q else 2]) for w in ("ext", "internal", "mixed")] + [("foreign", []), ("twins", ["libfoo.so.1"]), ("twins", ["libmvec.so.1"])]


def note(shape, v):
    gnu = Note(props=[(ISA, v)])
    if shape == "plain":
        return [gnu]
    if shape == "others":
        return [Note(props=[(FEAT, 3), (USED, 15), (ISA, v), (0xC0010001, 7)])]
    if shape == "owner":
        return [Note(name="GNX", props=[(ISA, v)])]
    if shape == "type":
        return [Note(ntype=1, props=[(ISA, v)])]
    if shape == "size":
        return [Note(props=[(ISA, b"\x0f\0\0\0\x0f\0\0\0")])]
    if shape == "second":
        return [Note(ntype=1, props=[(0, 3)]), Note(name="GNX", props=[(ISA, 8)]), gnu, Note(ntype=1, props=[])]
    if shape == "sections":
        return [Note(ntype=3, props=[(0, 3)], section=-1), gnu, Note(ntype=1, props=[(0, 3), (0, 3)], section=1)]
    return []


def run(sx, name, params):
    base = os.path.realpath(sx.scratch)
    {"value": value, "graph": graph, "foreign": foreign, "twins": twins}[name](sx, base, *params)


def value(sx, base, shape):
    arch = "x86_64"
    v = sx.int("isa", 0, 2**32 - 1)
    whl = make_wheel(base + "/in", wheel_name(), {"pkg/m.so": elf(notes=note(shape, v), symbols=[pyinit("m")])})
    off = sx.conc(sx.bool("off"))
    try:
        info = analyze(whl, "glibc", arch, isa_off=off)
        got = info.machine_policy.name
    except ValueError:
        got = "error"
    sx.observe("got", got)
    seen = shape not in ("owner", "type", "size", "none") and not off
    top, low = f"manylinux_2_5_{arch}", f"linux_{arch}"
    known = v < 16
    needs = sx.And(seen, sx.Not(sx.eq(v & 14, 0)))
    sx.check(sx.Implies(sx.Or(known, not seen), sx.eq(got, sx.If(needs, low, top))), "machine constraint", lambda: f"{v}: {got}")
    # bits no level is known for: never taken for no requirement at all
    sx.check(sx.Implies(sx.And(seen, sx.Not(known)), sx.Or(got == "error", got == low)), "unknown level is not accepted", lambda: f"{v}: {got}")


def isa(sx, name):
    """(entry of a notes list, level) of a file that needs none to v4"""
    v = sx.choice(name, [0, 1, 2, 3, 6, 15])
    return [G(sx.Not(sx.eq(v, 0)), Note(props=[(ISA, v)]))], sx.lift(lambda x: {0: 1, 1: 1, 2: 2, 3: 2, 6: 3, 15: 4}[x], v)


def graph(sx, base, which, nlink):
    pols = oracle_policies("glibc", "x86_64")
    top, low = pols[-1][0], pols[0][0]
    ext = base + "/ext"
    # never, sometimes, always whitelisted
    names = {"ext": ["libfoo.so.1", "libmvec.so.1", "libz.so.1"], "internal": ["libfoo.so.1"], "mixed": ["libmvec.so.1", "libexpat.so.1"]}[which]
    lv, files = {}, {}
    srcs = ["pkg/m.so", "pkg/n.so"][:nlink]
    link = {(s, n): sx.bool(f"{s[4]}_{n}") for s in srcs for n in names}
    dep = {n: sx.bool(f"dep_{n}") for n in names[1:]}
    for n in names:
        notes, lv[n] = isa(sx, f"isa_{n}")
        write_elf(f"{ext}/{n}", elf(notes=notes, soname=n, needed=[G(g, m) for m, g in dep.items()] if n == names[0] else []))
    for m in ("m", "n"):
        if m == "n" and which == "ext" and nlink == 1:
            continue
        notes, lv[m] = isa(sx, f"isa_{m}") if which != "ext" else ([], 1)
        files[f"pkg/{m}.so"] = elf(notes=notes, symbols=[pyinit(m)], rpath="$ORIGIN", needed=[G(g, n) for (s, n), g in link.items() if s == f"pkg/{m}.so"])
    audited = [m for m in ("m", "n") if m in lv]
    if which == "internal":
        # a library of the wheel is audited by itself only if nothing in the wheel needs it
        need = sx.bool("need_in")
        files["pkg/m.so"].needed.append(G(need, "libin.so"))
        notes, lv["in"] = isa(sx, "isa_in")
        files["pkg/libin.so"] = elf(notes=notes)
        lv["in"] = sx.If(need, 1, lv["in"])
        audited.append("in")
    off = sx.bool("off") if which == "mixed" else False
    off = sx.conc(off)
    whl = make_wheel(base + "/in", wheel_name(), files)
    info = analyze(whl, "glibc", "x86_64", isa_off=off, ldpaths=ext)
    wl = {n: [p[0] for p in pols[1:] if n in p[3]] for n in names}
    rank = {p[0]: i for i, p in enumerate(pols)}

    def external(n):
        """somewhere, for some policy, n is a library outside the wheel"""
        if n == "libz.so.1":
            return False
        direct = sx.Or(*[link[s, n] for s in srcs])
        if n == names[0]:
            return direct
        # through the first library, for a policy that whitelists neither
        via = any(p[0] not in wl[n] and p[0] not in wl[names[0]] for p in pols[1:])
        return sx.Or(direct, sx.And(via, dep[n], *[sx.Or(*[link[s, names[0]] for s in srcs])]))

    want = top
    for m in audited:
        want = sx.If(lv[m] > 1, low, want)
    for n in names:
        best = wl[n][-1] if wl[n] else low
        hit = sx.And(external(n), lv[n] > 1)
        want = sx.If(hit, sx.lift(lambda a, b: min(a, b, key=rank.get), want, best), want)
    if off:
        want = top
    got = info.machine_policy.name
    sx.observe("got", got)
    sx.check(sx.eq(got, want), "machine constraint", lambda: f"{got}, want {want}")
    sx.check(rank[info.overall_policy.name] <= rank[got], "bounds the overall tag", lambda: f"{info.overall_policy.name} > {got}")


def twins(sx, base, lib):
    """two extensions find different libraries of one name"""
    pols = oracle_policies("glibc", "x86_64")
    top, low = pols[-1][0], pols[0][0]
    wl = [p[0] for p in pols[1:] if lib in p[3]]
    files, hits = {}, []
    for m in ("m", "n"):
        notes, lv = isa(sx, f"isa_{m}")
        d = sx.sub(f"e{m}")
        write_elf(f"{d}/{lib}", elf(notes=notes, soname=lib))
        need = sx.bool(f"need_{m}")
        files[f"pkg/{m}.so"] = elf(symbols=[pyinit(m)], rpath=d, needed=[G(need, lib)])
        hits.append(sx.And(need, lv > 1))
    info = analyze(make_wheel(base + "/in", wheel_name(), files), "glibc", "x86_64", ldpaths="")
    got = info.machine_policy.name
    sx.check(sx.eq(got, sx.If(sx.Or(*hits), wl[-1] if wl else low, top)), "machine constraint", lambda: got)


def foreign(sx, base):
    v = sx.int("isa", 0, 2**32 - 1)
    whl = make_wheel(base + "/in", wheel_name("linux_aarch64"), {"pkg/m.so": elf("aarch64", notes=note("plain", v), symbols=[pyinit("m")])})
    info = analyze(whl, "glibc", "aarch64")
    sx.check(sx.eq(info.machine_policy.name, oracle_policies("glibc", "aarch64")[-1][0]), "machine constraint", lambda: info.machine_policy.name)
