"""The libc of a file."""
import os
from pathlib import Path

from symx.world import Elf, G, write_elf

BOUNDS = {
    "quick": "up to 3 needed names out of 13 (both libcs, loaders, near misses); file names of 20 forms with up to 1 needed name; 6 interpreters with up to 2 "
             "needed names; a library that itself needs either libc",
    "thorough": "4 needed names, every file name with 2",
}
ASSUMPTIONS = ["none of the needed libraries is found, except in the job where one is"]
LABELS = {k: ["libc", "both is an error"] for k in ("needed", "name", "interp", "indirect")}
SAMPLE_P = 0.2

MUSL = ["libc.musl-x86_64.so.1", "libc.musl-armv7.so.1", "ld-musl-aarch64.so.1"]
GNU = ["libc.so.6", "ld-linux-x86-64.so.2", "ld-linux-armhf.so.3", "ld64.so.2", "ld64.so.1"]
FREE = ["libc.so", "libc.so.6.1", "libm.so.6", "libc.musl", "xlibc.musl-x86_64.so.1"]
NAMES = {
    "m.cpython-311-x86_64-linux-gnu.so": "glibc", "m.cpython-312-arm-linux-gnueabihf.so": "glibc", "m.cpython-399-x86_64-linux-gnu.so": "glibc",
    "m.cpython-313t-aarch64-linux-gnu.so": "glibc", "m.cpython-314d-s390x-linux-gnu.so": "glibc",
    "m.cpython-310-x86_64-linux-gnu.so": None, "m.cpython-39-x86_64-linux-gnu.so": None, "m.cpython-27mu-arm-linux-gnueabihf.so": None,
    "m.cpython-31-x86_64-linux-gnu.so": None, "m.pypy311-pp73-x86_64-linux-gnu.so": None, "libm-linux-gnu.so": None,
    "m.cpython-310-x86_64-linux-musl.so": "musl", "m.cpython-39-arm-linux-musleabihf.so": "musl", "m.pypy39-pp73-x86_64-linux-musl.so": "musl",
    "libx-linux-musl.so": "musl", "m.cpython-312-x86_64-linux-musl.so.1": None, "m.abi3.so": None, "m.so": None,
    "m.cpython-311-x86_64-linux-gnu": None, "m.x.cpython-311-x86_64-linux-gnu.so": "glibc",
}
INTERP = {None: None, "/lib64/ld-linux-x86-64.so.2": "glibc", "/lib/ld-musl-x86_64.so.1": "musl", "/lib/ld64.so.1": "glibc", "/opt/odd-ld.so": "glibc", "/opt/odd-musl-ld.so": "glibc"}


def jobs(tier):
    q = tier == "quick"
    return [("needed", [3 if q else 4]), ("name", [1 if q else 2]), ("interp", [2]), ("indirect", [])]


def run(sx, name, params):
    from auditwheel.error import InvalidLibcError
    from auditwheel.lddtree import ldd
    base = os.path.realpath(sx.scratch)
    pool = MUSL + GNU + FREE
    fn, interp, n, conf = "m.so", None, params[0] if params else 2, []
    if name == "name":
        fn = sx.conc(sx.choice("fn", list(NAMES)))
    elif name == "interp":
        interp = sx.conc(sx.choice("interp", list(INTERP)))
    needed, facts = [], []
    for i in range(n):
        g = sx.bool(f"has{i}")
        v = sx.choice(f"n{i}", pool)
        needed.append(G(g, v))
        facts.append((g, v))
    if name == "indirect":
        # what a dependency needs tells nothing about the file
        conf = [os.path.join(base, "l")]
        write_elf(os.path.join(conf[0], "libd.so"), Elf(needed=[G(g, v) for g, v in facts]))
        needed, facts = ["libd.so"], []
        if sx.conc(sx.bool("main")):
            v = sx.choice("mn", MUSL[:1] + GNU[:1])
            needed.append(v)
            facts.append((True, v))
    p = os.path.join(base, fn)
    write_elf(p, Elf(needed=needed, interp=interp))
    try:
        got = ldd(Path(p), ldpaths={"conf": conf, "env": [], "interp": []}).libc
        got = None if got is None else got.value
    except InvalidLibcError:
        got = "error"
    musl = sx.Or(INTERP[interp] == "musl", *[sx.And(g, sx.in_(v, MUSL)) for g, v in facts])
    gnu = sx.Or(INTERP[interp] == "glibc", *[sx.And(g, sx.in_(v, GNU)) for g, v in facts])
    sx.observe("libc", got)
    sx.check(sx.Iff(got == "error", sx.And(musl, gnu)), "both is an error", lambda: got)
    if got != "error":
        sx.check(sx.eq(got, sx.If(musl, "musl", sx.If(gnu, "glibc", NAMES[fn]))), "libc", lambda: f"{fn}: {got}")
