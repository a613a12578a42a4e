"""Where an option's value comes from."""
import argparse
import contextlib
import io
import itertools
import platform

from harness.common import oracle_policies
from symx.world import set_env

ALPHA = "019- _x"
STRINGS = ["".join(t) for n in (1, 2, 3) for t in itertools.product(ALPHA, repeat=n)]
BOUNDS = {
    "quick": f"an option with every combination of type (none, int, a function), choices, default, required; environment unset, empty, or any string of 1 to 3 "
             f"characters of {ALPHA!r}, or any of 6 words; command line absent or any of 5 values; the repair command's own three options together",
    "thorough": "strings of up to 4 characters",
}
ASSUMPTIONS = ["argparse of the standard library", "the machine's own platform decides which policy names there are"]
LABELS = {"action": ["value", "error exactly when due"], "repair": ["values", "error exactly when due"]}
WORDS = ["alpha", "Alpha", "beta", "10", "1.5", "nope"]
SAMPLE_P = 0.3


def jobs(tier):
    return [("action", [t, c]) for t in ("none", "int", "lower") for c in (False, True)] + [("repair", [o]) for o in ("z", "plat", "patcher")]


def lower(s):
    if "nope" in s:
        raise ValueError(s)
    return s.strip().lower()


lower._sx_pure_ = True
ERR = (argparse.ArgumentError, SystemExit)


def typed(t, s):
    """('v', value) or ('e', None)"""
    try:
        return ("v", {"none": str, "int": int, "lower": lower}[t](s))
    except ValueError:
        return ("e", None)


def run(sx, name, params):
    if name == "repair":
        return repair(sx, params[0])
    from auditwheel.tools import EnvironmentDefault
    t, has_choices = params
    strings = STRINGS if sx.tier == "quick" else STRINGS + ["".join(x) for x in itertools.product(ALPHA, repeat=4)]
    choices = {"none": ["alpha", "10", "x"], "int": [-1, 0, 1, 9, 10], "lower": ["alpha", "beta", "10"]}[t] if has_choices else None
    dflt = sx.conc(sx.choice("default", [None, "d"]))
    if dflt:
        dflt = {"none": "alpha", "int": 0, "lower": "beta"}[t]
    required = sx.conc(sx.bool("required"))
    kind = sx.conc(sx.choice("envkind", ["unset", "empty", "set"]))
    env = {"unset": None, "empty": "", "set": None}[kind]
    if kind == "set":
        env = sx.choice("env", strings + WORDS)
    cli = sx.conc(sx.choice("cli", [None, "10", "alpha", "Alpha", "x", "nope"]))
    set_env("X_OPT", env)
    kw = {"none": {}, "int": {"type": int}, "lower": {"type": lower}}[t]
    p = argparse.ArgumentParser(exit_on_error=True)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            p.add_argument("--opt", action=EnvironmentDefault, env="X_OPT", dest="opt", choices=choices, default=dflt,
                           required=required, **kw)
            got = p.parse_args([] if cli is None else ["--opt", cli]).opt
        err = False
    except ERR:
        got, err = None, True
    cval = None if cli is None else typed(t, cli)
    cli_bad = cval is not None and (cval[0] == "e" or (choices is not None and cval[1] not in choices))
    if kind == "set":
        tv = sx.lift(lambda s: typed(t, s), env)
        bad = sx.lift(lambda v: v[0] == "e" or (choices is not None and v[1] not in choices), tv)
        due = sx.Or(bad, cli_bad)
        sx.check(sx.Iff(err, due), "error exactly when due")
        if not err:
            sx.check(sx.eq(got, sx.lift(lambda v: v[1], tv) if cli is None else cval[1]), "value")
            sx.observe("v", got)
        return
    missing = dflt is None and required and cli is None
    if kind == "empty" and choices is not None and err:
        return      # an empty value is outside the choices
    sx.check(err == bool(cli_bad or missing), "error exactly when due")
    if not err:
        sx.check(sx.eq(got, dflt if cli is None else cval[1]), "value")


OPTS = {
    "z": ("AUDITWHEEL_ZIP_COMPRESSION_LEVEL", "ZIP_COMPRESSION_LEVEL", "int", -1, "--zip-compression-level"),
    "plat": ("AUDITWHEEL_PLAT", "PLAT", "none", "auto", "--plat"),
    "patcher": ("AUDITWHEEL_PATCHER", "PATCHER", "none", "patchelf", "--patcher"),
}


def repair(sx, which):
    from auditwheel import main_repair
    arch = platform.machine()
    names = [n for p in oracle_policies("glibc", arch)[1:] for n in (p[0], *p[5])] + ["auto"]
    choices = {"z": list(range(10)), "plat": names, "patcher": ["patchelf", "lief-patchelf", "none"]}
    values = {"z": STRINGS, "plat": [*names, f"linux_{arch}", "manylinux_2_17", "manylinux2014", "Auto", "auto "],
              "patcher": ["patchelf", "lief-patchelf", "none", "lief", "None", "patch elf"]}
    clis = {"z": [None, "0", "9", "10"], "plat": [None, "auto", f"manylinux2014_{arch}", "linux"], "patcher": [None, "none", "lief"]}
    env, want, bad, argv = {}, {}, [], ["repair", "w.whl"]
    for o, (var, dest, t, dflt, flag) in OPTS.items():
        if o == which:
            setv = sx.conc(sx.bool("set"))
            env[o] = sx.choice("env", values[o]) if setv else None
            cli = sx.conc(sx.choice("cli", clis[o]))
        else:
            env[o] = sx.conc(sx.choice(f"env_{o}", [None, str(choices[o][1])]))
            cli = None
        set_env(var, env[o])
        if cli is not None:
            argv += [flag, cli]
            v = typed(t, cli)
            if v[0] == "e" or v[1] not in choices[o]:
                bad.append(True)
            else:
                want[dest] = v[1]
        if env[o] is not None:
            tv = sx.lift(lambda s, t=t: typed(t, s), env[o])
            bad.append(sx.lift(lambda v, o=o: v[0] == "e" or v[1] not in choices[o], tv))
            if cli is None:
                want[dest] = sx.lift(lambda v: v[1], tv)
        elif cli is None:
            want[dest] = dflt
    p = argparse.ArgumentParser()
    sub = p.add_subparsers()
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            main_repair.configure_parser(sub)
            args = p.parse_args(argv)
        err = False
    except ERR:
        err = True
    sx.check(sx.Iff(err, sx.Or(*bad)), "error exactly when due")
    if not err:
        sx.check(sx.And(*[sx.eq(getattr(args, d), v) for d, v in want.items()],
                        sx.eq([args.LIB_SDIR, str(args.WHEEL_DIR), args.UPDATE_TAGS, args.STRIP, args.EXCLUDE, args.ONLY_PLAT],
                              [".libs", "wheelhouse", True, False, [], False])), "values",
                 lambda: f"{vars(args)} {want}")
