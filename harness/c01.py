"""Symbol versions decide the tag: sound and maximal."""
from harness.common import (
    GLIBC_ARCHES, MUSL_ARCHES, highest_allowed, oracle_policies, symbol_universe, wheel_policies,
)

BOUNDS = {
    "quick": "versioned symbols per wheel: 2 under two libraries (any version any policy lists for the "
             "arch, one too new, one PRIVATE and one bare name per prefix, 5 foreign names), every glibc "
             "and musl architecture; 3 under two libraries over the GLIBC/GLIBCXX families for "
             "aarch64 and riscv64",
    "thorough": "as quick; 3 symbols over the whole universe for every glibc architecture, 4 over "
                "GLIBC/GLIBCXX",
}
ASSUMPTIONS = ["the policy JSON files are data read as shipped", "json, pathlib of CPython"]
LABELS = {"symbols": ["tag = highest policy that lists every restricted symbol"]}


def jobs(tier):
    out = [("symbols", ["glibc", a, 2, "all"]) for a in GLIBC_ARCHES] + \
        [("symbols", ["musl", a, 2, "all"]) for a in MUSL_ARCHES]
    out += [("symbols", ["glibc", a, 3, "core"]) for a in ("aarch64", "riscv64")]
    if tier != "quick":
        out += [("symbols", ["glibc", a, 3, "all"]) for a in GLIBC_ARCHES]
        out += [("symbols", ["glibc", a, 4, "core"]) for a in ("x86_64", "aarch64", "riscv64")]
    return out


def run(sx, name, params):
    libc, arch, k, uni = params
    pols = oracle_policies(libc, arch)
    musl = None
    if libc == "musl":
        musl = "_".join(pols[-1][0].split("_")[:3])
        pols = [pols[0], pols[-1]]
    wp = wheel_policies(sx, libc, arch, musl=musl)
    u = symbol_universe(libc, arch)
    if uni == "core":
        u = [s for s in u if s.startswith(("GLIBC_", "GLIBCXX_"))] + ["LIBFOO_1.0"]
    syms = [sx.choice(f"s{i}", u) for i in range(k)]
    half = (k + 1) // 2
    libs = {"libc.so.6": sx.set(syms[:half]), "libstdc++.so.6": sx.set(syms[half:])}
    got = wp.versioned_symbols_policy(libs)
    want = highest_allowed(sx, pols, syms)
    sx.observe("tag", got.name)
    sx.check(got.name == want, "tag = highest policy that lists every restricted symbol",
             lambda: f"want {want}")
