"""The lddtree command."""
import importlib.metadata
import json
import logging
import os
import sys

from symx.world import Elf, G, captured, set_env, set_text, write_elf

BOUNDS = {
    "quick": "a file (with or without an interpreter, run path) and five libraries with any of eight links between them, one in the directory the command is given, one in the one from the environment, one only beside "
             "the file, one only in a directory of the host's ld.so.conf, one missing; directories given, given as empty, or not; no, one or two -v",
    "thorough": "three more links, every run path with an interpreter",
}
ASSUMPTIONS = ["logging shows messages at the level it was set to (basicConfig recorded by a stand-in)"]
LABELS = {"tree": ["exit status", "printed", "the file", "libraries"]}
SAMPLE_P = 0.15


def jobs(tier):
    return [("tree", [g, v, tier == "quick"]) for g in ("dirs", "empty", "none") for v in (0, 1, 2)]


class Keep(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.seen = []

    def emit(self, record):
        self.seen.append((record.levelno, record.name, record.getMessage()))


def run(sx, name, params):
    from auditwheel import main as mm
    given, verbose, quick = params
    importlib.metadata.version = lambda n: {"auditwheel": "9.9.9"}[n]
    base = os.path.realpath(sx.scratch)
    d1, d2, here = base + "/d1", base + "/d2", base + "/here"
    so = {"a": "liba.so.1", "b": "libb.so.2", "h": "libh.so", "u": "libu.so.3", "c": "libconf.so.1"}
    where = {"a": f"{d1}/liba-real.so.1.0", "b": f"{d2}/libb.so.2", "h": f"{here}/libh.so", "u": None}
    if given != "dirs":
        where["a"] = f"{d2}/liba-real.so.1.0"
    # one in the host's directories, which are replaced by those given
    d3 = base + "/host"
    set_text("/etc/ld.so.conf", f"{d3}\n")
    write_elf(f"{d3}/{so['c']}", Elf(soname=so["c"]))
    edge = {}
    for k in (("ma", "mu", "ab", "au", "ba", "bh", "mh", "ac") if quick else ("ma", "mb", "mh", "mu", "ab", "au", "ba", "bh", "hb", "ac", "mc")):
        edge[k[0], k[1]] = sx.bool(k)

    def needed(s):
        return [G(g, so[t]) for (x, t), g in edge.items() if x == s]
    for k in "abh":
        write_elf(where[k], Elf(soname=so[k], needed=needed(k)))
    os.symlink("liba-real.so.1.0", os.path.join(os.path.dirname(where["a"]), so["a"]))
    os.makedirs(d1, exist_ok=True)
    rp = sx.conc(sx.choice("rp", [None, "rpath", "runpath"]))
    interp = f"{here}/ld-linux-x86-64.so.2" if (rp is None or not quick) and sx.conc(sx.bool("interp")) else None
    main = f"{here}/main"
    write_elf(main, Elf(needed=needed("m"), interp=interp, rpath="$ORIGIN:/nowhere" if rp == "rpath" else None, runpath="$ORIGIN:/nowhere" if rp == "runpath" else None))
    set_env("AUDITWHEEL_LD_LIBRARY_PATH", d2)
    sys.argv = ["/usr/bin/auditwheel", *["-v"] * verbose, "lddtree", *(["--ldpaths", f"{d1}:{base}/none" if given == "dirs" else ""] if given != "none" else []), main]
    keep, level = Keep(), []
    root = logging.getLogger()
    saved = logging.basicConfig, root.level
    logging.basicConfig = lambda **k: level.append(k.get("level", logging.WARNING))
    root.addHandler(keep)
    root.setLevel(1)
    try:
        code, text = captured(mm.main)
    finally:
        root.removeHandler(keep)
        root.setLevel(saved[1])
        logging.basicConfig = saved[0]
    sx.check(code == 0, "exit status", lambda: str(code))
    shown = [text] + [m for lv, nm, m in keep.seen if nm.endswith("lddtree") and lv >= level[0] and m.startswith("{")]
    shown = [x for x in shown if x.strip()]
    sx.check(len(level) == 1 and level[0] == (logging.DEBUG if verbose else logging.INFO) and len(shown) == 1, "printed", lambda: f"{level} {shown}")
    got = json.loads(shown[0])
    ok = [got["path"] == main, got["realpath"] == main, sx.eq(tuple(got["needed"]), seq(sx, edge, so, "m")), got["interpreter"] == interp,
          got["rpath"] == ([here] if rp == "rpath" else []), got["runpath"] == ([here] if rp == "runpath" else [])]
    sx.check(sx.And(*ok), "the file", lambda: str(got))
    # h lies where only the file itself looks, and with a RUNPATH only for its own needs
    reach = {t: edge.get(("m", t), False) for t in so}
    for _ in range(3):
        reach = {t: sx.Or(reach[t], *[sx.And(reach[s], edge[s, t]) for s in "abh" if (s, t) in edge and (s != "h" or rp is not None or interp)]) for t in so}
    ok = [set(got["libraries"]) <= {*so.values(), "ld-linux-x86-64.so.2"}, ("ld-linux-x86-64.so.2" in got["libraries"]) == (interp is not None)]
    found = {"a": where["a"], "b": where["b"], "h": where["h"] if rp or interp else None, "u": None, "c": f"{d3}/{so['c']}" if given == "none" else None}
    for k in so:
        lib = got["libraries"].get(so[k])
        ok.append(sx.Iff(lib is not None, reach[k]))
        if lib is not None:
            ok += [lib["soname"] == so[k], lib["realpath"] == found[k]]
            ok.append(sx.eq(tuple(lib["needed"]), seq(sx, edge, so, k) if found[k] else ()))
    sx.check(sx.And(*ok), "libraries", lambda: json.dumps(got["libraries"], indent=1))
    sx.observe("libs", sorted(got["libraries"]))


def seq(sx, edge, so, s):
    """what s needs, in order"""
    out = ()
    for (x, t), g in edge.items():
        if x == s:
            out = sx.If(g, sx.lift(lambda o, n=so[t]: (*o, n), out), out)
    return out
