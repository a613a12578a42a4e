"""Black-listed symbols."""
import os

from harness.common import POLICY_DIR, oracle_policies
from harness.wheelworld import Sym, analyze, elf, G, highest, make_wheel, pyinit, wheel_name, write_elf
from symx.world import set_json

BOUNDS = {
    "quick": "made-up data: two policies, any symbols of 2 on the lists of 2 libraries, an extension needing any of these and 2 symbols "
             "or two extensions with one each; the shipped data: one extension with 2 symbols or two extensions with 1 symbol each; symbol names over every black-list profile of the "
             "policies plus an unlisted name, section undefined/defined, binding global/weak/local, type func/object/notype; needed "
             "libraries any subset of 3 (black-listed per some policies, never, always), with or without one that itself needs them all; glibc x86_64 and aarch64, musl x86_64",
    "thorough": "one extension with 3 symbols, two with 2; every glibc architecture with 1",
}
ASSUMPTIONS = ["the policy JSON files are data read as shipped", "pyelftools (stand-in validated against it)"]
LABELS = {"made": ["black-listed symbols per policy", "blacklist constraint = highest clean policy"], "bl": ["black-listed symbols per policy", "blacklist constraint = highest clean policy"]}


def profiles(libc, arch):
    """(library, symbol) one per distinct set of policies that list it"""
    pols = oracle_policies(libc, arch)[1:]
    seen = {}
    for lib in sorted({k for p in pols for k in p[4]}):
        for s in sorted(set().union(*[p[4].get(lib, set()) for p in pols])):
            seen.setdefault((lib, tuple(s in p[4].get(lib, ()) for p in pols)), s)
    return [(lib, s) for (lib, _), s in seen.items()]


def jobs(tier):
    if tier == "quick":
        return [("made", [1, 2]), ("made", [2, 1]), ("bl", ["glibc", "x86_64", 1, 2]), ("bl", ["glibc", "x86_64", 2, 1]),
                ("bl", ["glibc", "aarch64", 1, 1]), ("bl", ["musl", "x86_64", 1, 2])]
    return [("made", [1, 3]), ("made", [2, 2]), ("bl", ["glibc", "x86_64", 1, 3]), ("bl", ["glibc", "x86_64", 2, 2]), ("bl", ["musl", "x86_64", 2, 1])] + [
        ("bl", ["glibc", a, 1, 1]) for a in ("aarch64", "s390x", "i686", "ppc64le", "armv7l", "riscv64")]


def made(sx, nelf, nsym):
    arch, names, libs = "x86_64", ["s1", "s2", "other"], ["liba.so", "libb.so"]
    data = [{"name": "linux", "aliases": [], "priority": 0, "symbol_versions": {}, "lib_whitelist": [], "blacklist": {}}]
    bl = {}
    for i in range(2):
        for lib in libs:
            for s in names[:2]:
                bl[i, lib, s] = sx.bool(f"bl{i}{lib[3]}{s}")
        data.append({"name": f"pol_{i}", "aliases": [], "priority": 90 + 10 * i, "symbol_versions": {arch: {"GLIBC": ["2.5"]}}, "lib_whitelist": libs,
                     "blacklist": {lib: sx.guarded([(bl[i, lib, s], s) for s in names[:2]]) for lib in libs}})
    set_json(os.path.join(POLICY_DIR, "manylinux-policy.json"), data)
    specs, facts = {}, []
    dep = sx.bool("dep")
    for e in range(nelf):
        need = {lib: sx.bool(f"need{e}_{lib}") for lib in libs}
        syms = [Sym(sx.choice(f"sym{e}_{i}", names), sx.choice(f"shndx{e}_{i}", ["SHN_UNDEF", "1"])) for i in range(nsym)]
        specs[f"pkg/m{e}.so"] = elf(arch, needed=[*[G(g, lib) for lib, g in need.items()], G(dep, "libdep.so")], symbols=[pyinit(f"m{e}"), *syms])
        facts.append((need, syms))
    whl = make_wheel(sx.sub("in"), wheel_name(), specs)
    info = analyze(whl, "glibc", arch)
    clean = []
    for i in range(2):
        got = info.external_refs[f"pol_{i}_{arch}"].blacklist
        oks, dirty = [], False
        for lib in libs:
            members = [(sx.And(bl[i, lib, s], sx.Or(*[sx.And(need[lib], sy.name == s, sy.shndx == "SHN_UNDEF")
                                                      for need, syms in facts for sy in syms])), s) for s in names[:2]]
            any_ = sx.Or(*[h for h, _ in members])
            dirty = sx.Or(dirty, any_)
            oks.append(sx.Iff(sx.in_(lib, got), any_))
            if lib in got:
                oks.append(sx.eq(sx.set(got[lib]), sx.guarded(members)))
        sx.check(sx.And(*oks), "black-listed symbols per policy", lambda i=i, got=got: f"{i}: {got}")
        clean.append(sx.Not(dirty))
    want = sx.If(clean[1], f"pol_1_{arch}", sx.If(clean[0], f"pol_0_{arch}", f"linux_{arch}"))
    sx.check(sx.eq(info.blacklist_policy.name, want), "blacklist constraint = highest clean policy", lambda: f"got {info.blacklist_policy.name}")


def run(sx, name, params):
    if name == "made":
        return made(sx, *params)
    libc, arch, nelf, nsym = params
    pols = oracle_policies(libc, arch)
    if libc == "musl":
        pols = [p for p in pols if p[0].startswith(("linux", "musllinux_1_2"))]
        plat = f"musllinux_1_2_{arch}"
    else:
        plat = f"linux_{arch}"
    prof = profiles(libc, arch)
    libs = sorted({lib for lib, _ in prof})[-2:] + ["libfree.so"]
    names = [s for lib, s in prof if lib in libs] + ["harmless"]
    if nelf == 2:
        libs = libs[1:]
    specs, facts = {}, []
    dep = sx.bool("dep") if nsym == 1 else True
    for e in range(nelf):
        need = {lib: sx.bool(f"need{e}_{lib}") for lib in libs}
        syms = []
        for i in range(nsym):
            syms.append(Sym(sx.choice(f"sym{e}_{i}", names),
                            sx.choice(f"shndx{e}_{i}", ["SHN_UNDEF", "1", "SHN_ABS"]),
                            sx.choice(f"type{e}_{i}", ["STT_FUNC", "STT_OBJECT", "STT_NOTYPE"]) if i == 0 else "STT_FUNC",
                            sx.choice(f"bind{e}_{i}", ["STB_GLOBAL", "STB_WEAK"])))
        # a dependency that needs them all does not make them needed by the file
        specs[f"pkg/m{e}.so"] = elf(arch, needed=[*[G(g, lib) for lib, g in need.items()], G(dep, "libdep.so")],
                                    symbols=[pyinit(f"m{e}"), *syms])
        facts.append((need, syms))
    whl = make_wheel(sx.sub("in"), wheel_name(plat), specs)
    if libc == "musl":
        import auditwheel.policy as pol
        libc_version(sx, pol)
    write_elf(sx.sub("ext") + "/libdep.so", elf(arch, needed=libs))
    info = analyze(whl, libc, arch, ldpaths=sx.sub("ext"))
    clean = {}
    for tag, _, _, wl, bl, _ in pols:
        got = info.external_refs[tag].blacklist
        oks, dirty = [], False
        for lib in libs:
            members = []
            for s in sorted(bl.get(lib, ())):
                if s not in names:
                    continue
                hit = sx.Or(*[sx.And(need[lib], sy.name == s, sy.shndx == "SHN_UNDEF", sy.bind == "STB_GLOBAL")
                              for need, syms in facts for sy in syms])
                members.append((hit, s))
            any_ = sx.Or(*[h for h, _ in members]) if members else False
            dirty = sx.Or(dirty, any_)
            oks.append(sx.Iff(sx.in_(lib, got), any_))
            if lib in got:
                oks.append(sx.eq(sx.set(got[lib]), sx.guarded(members)))
        oks.append(all(k in libs for k in got))
        sx.check(sx.And(*oks), "black-listed symbols per policy", lambda tag=tag, got=got: f"{tag}: {got}")
        clean[tag] = sx.Not(dirty)
    want = highest(sx, pols, lambda p: clean[p[0]])
    sx.observe("policy", info.blacklist_policy.name)
    sx.observe("oldest", info.external_refs[pols[-1][0]].blacklist)
    sx.check(sx.eq(info.blacklist_policy.name, want), "blacklist constraint = highest clean policy",
             lambda: f"got {info.blacklist_policy.name}, want {want}")


def libc_version(sx, pol):
    """the host is not musl: take the version the wheel's policy names"""
    from auditwheel.libc import Libc, LibcVersion
    Libc.get_current_version = lambda self: LibcVersion(1, 2)
