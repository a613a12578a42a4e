"""Policy data: what is accepted and what is offered."""
import itertools
import os
from pathlib import Path

from harness.common import GLIBC_ARCHES, MUSL_ARCHES, POLICY_DIR, oracle_policies, wheel_policies
from symx.world import set_json

BOUNDS = {
    "quick": "policy files of linux and 3 policies in any order of priority; each library of 2, each version of 2 in each of 2 symbol families, there or not; "
             "the family and the second architecture there or not; shipped files: every architecture, every policy name, alias and foreign name",
    "thorough": "every presence of families and architectures in every order; 4 policies for one architecture",
}
ASSUMPTIONS = ["priorities are distinct", "json of the standard library", "the host has no musl libc (musl versions come as argument)"]
SAMPLE_P = 0.3
LABELS = {
    "file": ["rejected exactly when inconsistent", "policies offered", "contents", "found by name"],
    "shipped": ["accepted", "policies offered", "contents", "found by name or alias"],
    "musl": ["musl policy"],
}
A, B = "x86_64", "aarch64"


def jobs(tier):
    perms = list(itertools.permutations([3, 2, 1]))
    if tier == "quick":
        out = [("file", [list(p), "A"]) for p in perms] + [("file", [[3, 2, 1], "AB"]), ("file", [[1, 3, 2], "AB"]),
                                                           ("file", [[2, 1, 3], "AQ"]), ("file", [[3, 2, 1], "AQ"])]
    else:
        out = [("file", [list(p), s]) for p in perms for s in ("A", "AB", "AQ", "ABQ")]
        out += [("file", [[2, 4, 1, 3], "AQ"]), ("file", [[4, 3, 2, 1], "AB"])]
    return out + [("shipped", [li]) for li in ("glibc", "musl")] + [("musl", [])]


def run(sx, name, params):
    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    from auditwheel.policy import WheelPolicies

    if name == "musl":
        m = sx.conc(sx.choice("m", [None, "musllinux_1_1", "musllinux_1_2", "musllinux_1", "manylinux_2_17", "musllinux_1_2_3", "", "xmusllinux_1_1"]))
        li = sx.conc(sx.choice("libc", ["glibc", "musl"]))
        try:
            wp = wheel_policies(sx, li, A, musl=m)
            got = [p.name for p in wp]
        except ValueError:
            got = "rejected"
        if li == "glibc":
            want = "rejected" if m is not None else [p[0] for p in oracle_policies("glibc", A)]
        elif m in ("musllinux_1_1", "musllinux_1_2"):
            want = [f"linux_{A}", f"{m}_{A}"]
        elif m is None:
            want = [f"linux_{A}", oracle_policies("musl", A)[1][0]]
        else:
            want = "rejected"
        sx.check(got == want, "musl policy", lambda: f"{li} {m!r}: {got}")
        return
    if name == "shipped":
        return shipped(sx, params[0])

    prios, what = params
    n = len(prios)
    libs = ["liba.so.1", "libb.so"]
    data = [{"name": "linux", "aliases": [], "priority": 0, "symbol_versions": {}, "lib_whitelist": [], "blacklist": {}}]
    spec = []
    for i, pr in enumerate(prios):
        wl = {x: sx.bool(f"w{i}{x[3]}") for x in libs}
        sv = {}
        for arch, fams in ((A, "PQ" if "Q" in what else "P"), (B, "P")):
            if arch == B and "B" not in what:
                continue
            if arch == B and not sx.conc(sx.bool(f"arch{i}")):
                continue
            if arch == A and "B" in what and not sx.conc(sx.bool(f"archA{i}")):
                continue
            sv[arch] = {}
            for fam in fams:
                if fam == "Q" and not sx.conc(sx.bool(f"fam{i}{arch}")):
                    continue
                sv[arch][fam] = {v: sx.bool(f"v{i}{arch}{fam}{v}") for v in ("1.0", "1.1")}
        spec.append((f"pol_{i}", pr, wl, sv))
        data.append({"name": f"pol_{i}", "aliases": [f"alias{i}", f"other{i}"], "priority": pr * 10,
                     "symbol_versions": {a: {f: sx.guarded([(g, v) for v, g in vs.items()]) for f, vs in fs.items()} for a, fs in sv.items()},
                     "lib_whitelist": sx.guarded([(g, x) for x, g in wl.items()]),
                     "blacklist": {"libz.so.1": [f"sym{i}"]}})
    set_json(os.path.join(POLICY_DIR, "manylinux-policy.json"), data)
    # highest priority first; what a policy has, every one after it must have
    order = sorted(spec, key=lambda s: -s[1])
    bad = []
    for hi, lo in itertools.combinations(order, 2):
        for x in libs:
            bad.append(sx.And(hi[2][x], sx.Not(lo[2][x])))
        for a in hi[3]:
            for f in hi[3][a]:
                if f in lo[3].get(a, {}):
                    for v in hi[3][a][f]:
                        bad.append(sx.And(hi[3][a][f][v], sx.Not(lo[3][a][f][v])))
    bad = sx.Or(*bad)
    try:
        wp = WheelPolicies(libc=Libc.GLIBC, arch=Architecture(A))
        ok = True
    except ValueError:
        ok = False
    sx.check(sx.Iff(ok, sx.Not(bad)), "rejected exactly when inconsistent")
    if not ok:
        return
    want = [(f"linux_{A}", None)] + [(f"{s[0]}_{A}", s) for s in order[::-1] if A in s[3]]
    got = list(wp)
    sx.check([p.name for p in got] == [w[0] for w in want], "policies offered", lambda: f"{[p.name for p in got]} {want}")
    c = [got[0].symbol_versions == {}, wp.linux == got[0], wp.highest == got[-1], wp.architecture == Architecture(A), wp.libc == Libc.GLIBC]
    if len(got) > 1:
        c.append(wp.lowest == got[1])
    for p, (nm, s) in list(zip(got, want))[1:]:
        i = s[0].split("_")[1]
        c.append(p.aliases == (f"alias{i}_{A}", f"other{i}_{A}"))
        c.append(sorted(p.blacklist) == ["libz.so.1"] and sorted(p.blacklist["libz.so.1"]) == [f"sym{i}"])
        c.append(sorted(p.symbol_versions) == sorted(s[3][A]))
        for x in libs:
            c.append(sx.Iff(sx.in_(x, p.whitelist), s[2][x]))
        for f in s[3][A]:
            for v, g in s[3][A][f].items():
                c.append(sx.Iff(sx.in_(v, p.symbol_versions[f]), g))
    sx.check(sx.And(*c), "contents", lambda: str(got))
    ok = []
    for i in range(n):
        for nm in (f"pol_{i}_{A}", f"alias{i}_{A}", f"other{i}_{A}", f"pol_{i}", f"alias{i}_{B}"):
            try:
                r = wp.get_policy_by_name(nm).name
            except LookupError:
                r = None
            ok.append(r == (f"pol_{i}_{A}" if nm.endswith("_" + A) and A in spec[i][3] else None))
    sx.check(all(ok), "found by name")


def shipped(sx, li):
    arch = sx.conc(sx.choice("arch", GLIBC_ARCHES if li == "glibc" else MUSL_ARCHES))
    musl = sx.conc(sx.choice("musl", ["musllinux_1_1", "musllinux_1_2"])) if li == "musl" else None
    pols = [p for p in oracle_policies(li, arch) if musl is None or p[0].startswith(("linux", musl))]
    if len(pols) < 2:
        return      # that musl version has no policy for the architecture
    wp = wheel_policies(sx, li, arch, musl=musl)
    sx.reach("accepted")
    got = list(wp)
    sx.check([p.name for p in got] == [p[0] for p in pols], "policies offered")
    c = [wp.linux == got[0], wp.highest == got[-1], wp.lowest == got[1]]
    for p, q in list(zip(got, pols))[1:]:
        c += [p.priority == q[1], tuple(p.aliases) == q[5], sorted(p.whitelist) == sorted(q[3]),
              {k: sorted(v) for k, v in p.blacklist.items()} == {k: sorted(v) for k, v in q[4].items()},
              {k: sorted(f"{k}_{x}" for x in v) for k, v in p.symbol_versions.items()} == {k: sorted(v) for k, v in q[2].items()}]
    sx.check(all(bool(x) for x in c), "contents")
    names = {p[0]: p[0] for p in pols}
    for p in pols:
        names.update(dict.fromkeys(p[5], p[0]))
    foreign = {n for a in GLIBC_ARCHES for lb in ("glibc", "musl") if lb == "glibc" or a in MUSL_ARCHES
               for p in oracle_policies(lb, a) for n in (p[0], *p[5])} | {"manylinux_2_17", "linux", "", "manylinux1", "auto", f"manylinux_2_6_{arch}"}
    nm = sx.choice("name", sorted(set(names) | foreign))
    want = sx.lift(lambda x: names.get(x), nm)
    try:
        r = wp.get_policy_by_name(nm).name
    except LookupError:
        r = None
    sx.check(sx.eq(r, want) if r is not None else sx.is_(want, None), "found by name or alias")
    sx.observe("r", r)
