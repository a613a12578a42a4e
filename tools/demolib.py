"""Small real ELF files and wheels for the demonstrations.  All below $DEMO_DIR."""
import base64
import hashlib
import os
import sys
import types
import zipfile
from pathlib import Path

from elfwriter import build

D = Path(os.path.realpath(os.environ["DEMO_DIR"]))
M = {"x86_64": ("EM_X86_64", 64, True, 0), "i686": ("EM_386", 32, True, 0), "aarch64": ("EM_AARCH64", 64, True, 0),
     "armv7l": ("EM_ARM", 32, True, 0x5000400), "ppc64le": ("EM_PPC64", 64, True, 2), "s390x": ("EM_S390", 64, False, 0)}


def sym(name, defined=False, type="STT_FUNC", bind="STB_GLOBAL"):
    return types.SimpleNamespace(name=name, shndx="1" if defined else "SHN_UNDEF", type=type, bind=bind, guard=True)


def note(isa, ntype=5, name="GNU", section=0):
    return types.SimpleNamespace(ntype=ntype, name=name, props=[(0xC0008002, isa.to_bytes(4, "little"))] if isinstance(isa, int) else isa, section=section)


def elf(arch="x86_64", needed=(), soname=None, rpath=None, runpath=None, verneed=(), symbols=(), notes=(), interp=None,
        osabi="ELFOSABI_SYSV", salt=""):
    m = M[arch]
    return build(types.SimpleNamespace(machine=m[0], elfclass=m[1], little=m[2], flags=m[3], osabi=osabi, needed=list(needed),
                                       soname=soname, rpath=rpath, runpath=runpath, verneed=[(a, list(b)) for a, b in verneed],
                                       symbols=list(symbols), notes=list(notes), interp=interp, dynamic=True), salt)


def put(path, data, mode=0o755):
    p = D / path
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_bytes(data if isinstance(data, bytes) else data.encode())
    p.chmod(mode)
    return p


def ext(mod, **k):
    k["symbols"] = [sym("PyInit_" + mod, True), *k.get("symbols", [])]
    k.setdefault("needed", ["libc.so.6"])
    return elf(**k)


def wheel(files, fn="pkg-1.0-cp312-cp312-linux_x86_64.whl", modes=None, purelib="false", extra=None):
    name, ver, *_ = fn.split("-")
    p = fn[:-4].split("-")
    di = f"{name}-{ver}.dist-info"
    out = {k: v.encode() if isinstance(v, str) else v for k, v in files.items()}
    tags = "".join(f"Tag: {a}-{b}-{c}\n" for a in p[-3].split(".") for b in p[-2].split(".") for c in p[-1].split("."))
    out[f"{di}/WHEEL"] = f"Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: {purelib}\n{tags}\n".encode()
    out[f"{di}/METADATA"] = f"Metadata-Version: 2.1\nName: {name}\nVersion: {ver}\n".encode()
    out.update(extra or {})
    rec = ""
    for k, c in out.items():
        h = base64.urlsafe_b64encode(hashlib.sha256(c).digest()).rstrip(b"=").decode()
        rec += f"{k},sha256={h},{len(c)}\n"
    out[f"{di}/RECORD"] = (rec + f"{di}/RECORD,,\n").encode()
    d = D / "in"
    d.mkdir(exist_ok=True)
    with zipfile.ZipFile(d / fn, "w") as z:
        for k, c in out.items():
            zi = zipfile.ZipInfo(k, (2020, 1, 1, 0, 0, 0))
            zi.external_attr = (modes or {}).get(k, 0o100755 if ".so" in k else 0o100644) << 16
            z.writestr(zi, c)
    return d / fn


def analyze(whl, libc="GLIBC", arch="x86_64", exclude=(), ldpaths="", **k):
    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    from auditwheel.wheel_abi import analyze_wheel_abi
    k.setdefault("disable_isa_ext_check", False)
    k.setdefault("allow_graft", True)
    return analyze_wheel_abi(libc and Libc[libc], arch and Architecture(arch), whl, frozenset(exclude),
                             args_ldpaths=None if ldpaths is None else str(ldpaths), **k)


def main(*argv):
    """auditwheel on the command line -> exit status"""
    import importlib.metadata as im
    im.version = lambda n: "1.0"
    from auditwheel import main as m
    old = sys.argv
    sys.argv = ["auditwheel", *map(str, argv)]
    try:
        return m.main()
    except SystemExit as e:
        return e.code
    finally:
        sys.argv = old
