"""The environment of auditwheel under test: ELF files, external programs.

Symbolic mode: an ELF file is a marker plus a number that names a spec whose
fields may be symbolic; `elftools` is a stand-in that answers from the spec;
subprocess.Popen is a stand-in that interprets patchelf, strip, dpkg ...
Plain mode: the spec is written out as a real ELF file, and the real
pyelftools and the real patchelf are used."""
from __future__ import annotations

import collections.abc
import dataclasses
import os
import subprocess
import sys
import types

MARK = b"\x7fELFSYMX"
MODE = None
SPECS = {}
LOG = []            # commands seen by the Popen stand-in
VENV = {}           # environment variables with symbolic values (symbolic mode)
VFILES = {}         # text files with symbolic lines (symbolic mode)
HOOKS = {}          # harness-provided behaviours, reset every path
REAL_POPEN = subprocess.Popen
REAL_PATCHELF = next((p for p in ("/opt/venv/bin/patchelf", "/usr/bin/patchelf") if os.path.exists(p)), None)


@dataclasses.dataclass
class Sym:
    name: object
    shndx: object = "SHN_UNDEF"
    type: object = "STT_FUNC"
    bind: object = "STB_GLOBAL"
    guard: object = True


@dataclasses.dataclass
class Note:
    """A note; for GNU properties props is [(pr_type:int, bytes-or-int)]"""
    ntype: object = 5
    name: object = "GNU"
    props: list = dataclasses.field(default_factory=list)
    guard: object = True
    section: int = 0    # -1: a section before .note.gnu.property, 1: one after it


NOTE_SECTIONS = {-1: ".note.gnu.build-id", 0: ".note.gnu.property", 1: ".note.ABI-tag"}


@dataclasses.dataclass
class G:
    """An entry that is there only if guard holds"""
    guard: object
    value: object


@dataclasses.dataclass
class Elf:
    osabi: object = "ELFOSABI_SYSV"
    elfclass: object = 64
    little: object = True
    machine: object = "EM_X86_64"
    flags: object = 0
    interp: object = None
    needed: list = dataclasses.field(default_factory=list)
    rpath: object = None
    runpath: object = None
    soname: object = None
    verneed: list = dataclasses.field(default_factory=list)   # (lib, [versions])
    symbols: list = dataclasses.field(default_factory=list)
    notes: list = dataclasses.field(default_factory=list)
    dynamic: object = True
    salt: object = None

    def copy(self, **k):
        return dataclasses.replace(self, **k)


def live(entries):
    """entries of a possibly guarded list that are there (forks)"""
    for e in entries:
        if isinstance(e, G):
            if e.guard:
                yield e.value
        elif isinstance(e, (Sym, Note)):
            if e.guard:
                yield e
        else:
            yield e


def reset():
    SPECS.clear()
    LOG.clear()
    HOOKS.clear()
    VFILES.clear()
    VENV.clear()
    if MODE == "sym":
        from . import symstr
        symstr.TOKENS.clear()
        from . import fsx
        fsx.reset()


def write_elf(path, spec, mode=0o644):
    path = os.fspath(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.lexists(path):
        os.unlink(path)
    n = len(SPECS)
    SPECS[n] = spec
    salt = spec.salt if spec.salt is not None else f"elf{n}"
    with open(path, "wb") as f:
        f.write(elf_bytes(n, spec, salt))
    os.chmod(path, mode)
    return path


def elf_content(spec):
    """bytes of a fresh ELF file"""
    n = len(SPECS)
    SPECS[n] = spec
    return elf_bytes(n, spec, spec.salt if spec.salt is not None else f"elf{n}")


def elf_bytes(n, spec, salt):
    if MODE == "sym":
        return MARK + f"{n:08d}:{salt}\n".encode()
    from . import elfwriter
    c = spec.copy(
        needed=list(live(spec.needed)),
        verneed=[(lib, list(live(v))) for lib, v in live(spec.verneed)],
        symbols=list(live(spec.symbols)),
        notes=[dataclasses.replace(x, props=[
            (t, d if isinstance(d, bytes) else int(d).to_bytes(4, "little" if spec.little else "big"))
            for t, d in live(x.props)]) for x in live(spec.notes)],
    )
    return elfwriter.build(c, salt.encode() + b"\0")


def spec_of(path):
    """(symbolic mode) the spec a file names now"""
    with open(path, "rb") as f:
        return spec_of_bytes(f.read(64))


def spec_of_bytes(b):
    if not b.startswith(MARK):
        return None
    return SPECS[int(b[len(MARK):len(MARK) + 8])]


@dataclasses.dataclass
class Info:
    needed: list
    rpath: object
    runpath: object
    soname: object


def elf_state(path):
    """Like elf_info, with needed a list of (guard, name) and nothing decided."""
    if MODE == "sym":
        s = spec_of(path)
        return None if s is None else Info(entries(s.needed), s.rpath, s.runpath, s.soname)
    r = elf_info(path)
    if r is not None:
        r.needed = [(True, n) for n in r.needed]
    return r


def elf_info(path_or_bytes):
    """What is in an ELF file now, read independently of auditwheel."""
    if isinstance(path_or_bytes, bytes):
        data = path_or_bytes
    else:
        with open(path_or_bytes, "rb") as f:
            data = f.read()
    if MODE == "sym":
        s = spec_of_bytes(data[:64])
        if s is None:
            return None
        return Info(list(live(s.needed)), s.rpath, s.runpath, s.soname)
    if data[:4] != b"\x7fELF":
        return None
    import io

    from elftools.elf.dynamic import DynamicSegment
    from elftools.elf.elffile import ELFFile
    e = ELFFile(io.BytesIO(data))
    inf = Info([], None, None, None)
    for seg in e.iter_segments():
        if isinstance(seg, DynamicSegment):
            for t in seg.iter_tags():
                if t.entry.d_tag == "DT_NEEDED":
                    inf.needed.append(t.needed)
                elif t.entry.d_tag == "DT_RPATH":
                    inf.rpath = t.rpath
                elif t.entry.d_tag == "DT_RUNPATH":
                    inf.runpath = t.runpath
                elif t.entry.d_tag == "DT_SONAME":
                    inf.soname = t.soname
    return inf


# --------------------------------------------------------------------------
# elftools stand-in


class ELFError(Exception):
    pass


class ELFParseError(ELFError):
    pass


class _M:
    """Base: an attribute the stand-in does not have is an engine error."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise AttributeError(f"elftools stand-in: {type(self).__name__}.{n} is not modelled")


class Container(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(f"elftools stand-in: container field {n} is not modelled") from None


class Section(_M):
    def __init__(self, elf, name, typ):
        self._elf = elf
        self.name = name
        self.header = Container(sh_name=0, sh_type=typ, sh_flags=0, sh_size=0)

    @property
    def elffile(self):
        return self._elf

    def __getitem__(self, k):
        return self.header[k]

    def is_null(self):
        return False


class NullSection(Section):
    def is_null(self):
        return True


class StringTableSection(Section):
    pass


class Symbol(_M):
    def __init__(self, s):
        self.name = s.name
        self.entry = Container(
            st_name=1, st_info=Container(bind=s.bind, type=s.type),
            st_other=Container(local=0, visibility="STV_DEFAULT"),
            st_shndx=s.shndx if not isinstance(s.shndx, str) or s.shndx.startswith("SHN_") else 1,
            st_value=0, st_size=0)

    def __getitem__(self, k):
        return self.entry[k]


class SymbolTableSection(Section):
    def _all(self):
        yield Symbol(Sym("", "SHN_UNDEF", "STT_NOTYPE", "STB_LOCAL"))
        ss = self._elf.spec.symbols
        for s in ss:
            if s.bind == "STB_LOCAL" and s.guard:
                yield Symbol(s)
        for s in ss:
            if s.bind != "STB_LOCAL" and s.guard:
                yield Symbol(s)

    def iter_symbols(self):
        for s in self._all():
            self._elf._alive()
            yield s

    def num_symbols(self):
        return len(list(self._all()))

    def get_symbol(self, n):
        return list(self._all())[n]

    def get_symbol_by_name(self, name):
        r = [s for s in self._all() if s.name == name]
        return r or None


class Version(_M):
    def __init__(self, name, entry):
        self.name = name
        self.entry = entry

    def __getitem__(self, k):
        return self.entry[k]


class VersionAuxiliary(Version):
    pass


class GNUVerNeedSection(Section):
    def iter_versions(self):
        for lib, vers in live(self._elf.spec.verneed):
            vs = list(live(vers))
            if not vs:
                continue
            yield Version(lib, Container(vn_version=1, vn_cnt=len(vs))), (
                VersionAuxiliary(v, Container(vna_flags=0)) for v in vs)

    def num_versions(self):
        return len(list(self.iter_versions()))

    def has_indexes(self):
        return True


class DynamicTag(_M):
    def __init__(self, tag, attr, val):
        self.entry = Container(d_tag=tag, d_val=0, d_ptr=0)
        if attr:
            setattr(self, attr, val)

    def __getitem__(self, k):
        return self.entry[k]


class Dynamic(_M):
    def _tags(self):
        s = self._elf.spec
        for n in live(s.needed):
            yield DynamicTag("DT_NEEDED", "needed", n)
        if s.soname is not None:
            yield DynamicTag("DT_SONAME", "soname", s.soname)
        if s.rpath is not None:
            yield DynamicTag("DT_RPATH", "rpath", s.rpath)
        if s.runpath is not None:
            yield DynamicTag("DT_RUNPATH", "runpath", s.runpath)
        yield DynamicTag("DT_STRTAB", None, None)
        yield DynamicTag("DT_NULL", None, None)

    def iter_tags(self, type=None):  # noqa: A002
        for t in self._tags():
            self._elf._alive()
            if type is None or t.entry.d_tag == type:
                yield t

    def num_tags(self):
        return len(list(self._tags()))

    def get_tag(self, n):
        return list(self._tags())[n]


class DynamicSection(Section, Dynamic):
    pass


class Segment(_M):
    def __init__(self, elf, typ):
        self._elf = elf
        self.header = Container(p_type=typ, p_flags=0, p_offset=0, p_vaddr=0, p_filesz=0)

    @property
    def elffile(self):
        return self._elf

    def __getitem__(self, k):
        return self.header[k]


class InterpSegment(Segment):
    def get_interp_name(self):
        self._elf._alive()
        return self._elf.spec.interp


class DynamicSegment(Segment, Dynamic):
    pass


class NoteSegment(Segment):
    pass


NT = {5: "NT_GNU_PROPERTY_TYPE_0", 1: "NT_GNU_ABI_TAG", 3: "NT_GNU_BUILD_ID"}
PT = {0xC0008002: "GNU_PROPERTY_X86_ISA_1_NEEDED", 0xC0000002: "GNU_PROPERTY_X86_FEATURE_1_AND",
      0xC0010002: "GNU_PROPERTY_X86_ISA_1_USED", 0xC0010001: "GNU_PROPERTY_X86_FEATURE_2_USED"}


def note_section(x):
    return (x.value if isinstance(x, G) else x).section


class NoteSection(Section):
    def iter_notes(self):
        for n in live([x for x in self._elf.spec.notes if NOTE_SECTIONS[note_section(x)] == self.name]):
            self._elf._alive()
            desc = []
            for t, d in live(n.props):
                desc.append(Container(
                    pr_type=PT.get(t, t), pr_datasz=4 if not isinstance(d, bytes) else len(d),
                    pr_data=d if not isinstance(d, bytes) else
                    (int.from_bytes(d, "little") if len(d) == 4 else d.hex())))
            yield Container(n_type=NT.get(n.ntype, n.ntype), n_name=n.name, n_desc=desc,
                            n_namesz=4, n_descsz=16, n_size=32, n_offset=0)


class ELFFile(_M):
    def __init__(self, stream):
        pos = stream.tell()
        head = stream.read(64)
        stream.seek(pos)
        self.stream = stream
        if not head.startswith(b"\x7fELF"):
            raise ELFError("Magic number does not match")
        spec = spec_of_bytes(head)
        if spec is None and len(head) < 52:
            raise ELFParseError("truncated header")
        if spec is None:
            from .core import Inconclusive
            raise Inconclusive(f"a host ELF file was opened: {getattr(stream, 'name', '?')}")
        self.spec = spec
        self.e_ident_raw = head[:16]
        self.header = Container(
            e_ident=Container(EI_OSABI=spec.osabi, EI_CLASS=spec.elfclass, EI_VERSION="EV_CURRENT",
                              EI_ABIVERSION=0),
            e_machine=spec.machine, e_flags=spec.flags, e_type="ET_DYN", e_version="EV_CURRENT",
            e_shnum=4, e_phnum=3)

    @property
    def elfclass(self):
        return self.spec.elfclass

    @property
    def little_endian(self):
        return self.spec.little

    def _alive(self):
        if getattr(self.stream, "closed", False):
            raise ValueError("read of closed file")

    def __getitem__(self, k):
        return self.header[k]

    def _segments(self):
        s = self.spec
        out = []
        if s.interp is not None:
            out.append(InterpSegment(self, "PT_INTERP"))
        out.append(Segment(self, "PT_LOAD"))
        out.append(Segment(self, "PT_LOAD"))
        if s.dynamic:
            out.append(DynamicSegment(self, "PT_DYNAMIC"))
        return out

    def iter_segments(self, type=None):  # noqa: A002
        for g in self._segments():
            self._alive()
            if type is None or g["p_type"] == type:
                yield g

    def num_segments(self):
        return len(self._segments())

    def get_segment(self, n):
        return self._segments()[n]

    def _sections(self):
        s = self.spec
        out = [NullSection(self, "", "SHT_NULL")]
        if s.interp is not None:
            out.append(Section(self, ".interp", "SHT_PROGBITS"))
        for k in sorted({note_section(x) for x in s.notes}):
            out.append(NoteSection(self, NOTE_SECTIONS[k], "SHT_NOTE"))
        out.append(SymbolTableSection(self, ".dynsym", "SHT_DYNSYM"))
        has = False
        for lib, vers in live(s.verneed):
            if list(live(vers)):
                has = True
                break
        if has:
            out.append(GNUVerNeedSection(self, ".gnu.version_r", "SHT_GNU_verneed"))
        out.append(StringTableSection(self, ".dynstr", "SHT_STRTAB"))
        if s.dynamic:
            out.append(DynamicSection(self, ".dynamic", "SHT_DYNAMIC"))
        out.append(StringTableSection(self, ".shstrtab", "SHT_STRTAB"))
        return out

    def iter_sections(self, type=None):  # noqa: A002
        for sec in self._sections():
            self._alive()
            if type is None or sec["sh_type"] == type:
                yield sec

    def num_sections(self):
        return len(self._sections())

    def get_section(self, n):
        return self._sections()[n]

    def get_section_by_name(self, name):
        self._alive()
        s = self.spec
        if name == ".dynsym":
            return SymbolTableSection(self, ".dynsym", "SHT_DYNSYM")
        if name == ".dynamic":
            return DynamicSection(self, name, "SHT_DYNAMIC") if s.dynamic else None
        for sec in self._sections():
            if sec.name == name:
                return sec
        return None

    def get_machine_arch(self):
        raise AttributeError("elftools stand-in: get_machine_arch is not modelled")

    def has_dwarf_info(self):
        return False


def _fake_elftools():
    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        m.__path__ = []
        sys.modules[name] = m
        return m

    import importlib
    consts = importlib.import_module("elftools.elf.constants")
    for n in [n for n in sys.modules if n.startswith("elftools")]:
        if n not in ("elftools.elf.constants",):
            del sys.modules[n]
    root = mod("elftools", __version__="0.33")
    common = mod("elftools.common")
    exc = mod("elftools.common.exceptions", ELFError=ELFError, ELFParseError=ELFParseError)
    elf = mod("elftools.elf")
    root.common, root.elf, common.exceptions = common, elf, exc
    elf.constants = consts
    sys.modules["elftools.elf.constants"] = consts
    elf.elffile = mod("elftools.elf.elffile", ELFFile=ELFFile)
    elf.dynamic = mod("elftools.elf.dynamic", DynamicSection=DynamicSection,
                      DynamicSegment=DynamicSegment, Dynamic=Dynamic, DynamicTag=DynamicTag)
    elf.sections = mod("elftools.elf.sections", Section=Section, NoteSection=NoteSection,
                       SymbolTableSection=SymbolTableSection, StringTableSection=StringTableSection,
                       Symbol=Symbol, NullSection=NullSection)
    elf.segments = mod("elftools.elf.segments", Segment=Segment, InterpSegment=InterpSegment,
                       NoteSegment=NoteSegment)
    elf.gnuversions = mod("elftools.elf.gnuversions", GNUVerNeedSection=GNUVerNeedSection,
                          Version=Version, VersionAuxiliary=VersionAuxiliary)


# --------------------------------------------------------------------------
# external programs


class ToolError(Exception):
    def __init__(self, code, out=b"", err=b""):
        self.code, self.out, self.err = code, out, err


def entries(items):
    """(guard, value) of a possibly guarded list, without deciding the guards"""
    return [(e.guard, e.value) if isinstance(e, G) else (True, e) for e in items]


def apply_patchelf(argv, spec):
    """What patchelf does to (a copy of) spec; returns (spec, stdout)."""
    from . import core, instr
    remove, replace, add = [], [], []
    force = False
    i = 0
    out = ""
    setso = setr = None
    remr = False
    while i < len(argv):
        a = argv[i]
        if core.is_sym(a):
            a = core.concretize(a)
        if a == "--set-soname":
            setso = argv[i + 1]
            i += 2
        elif a == "--remove-needed":
            remove.append(argv[i + 1])
            i += 2
        elif a == "--replace-needed":
            replace.append((argv[i + 1], argv[i + 2]))
            i += 3
        elif a == "--add-needed":
            add.append(argv[i + 1])
            i += 2
        elif a == "--set-rpath":
            setr = argv[i + 1]
            i += 2
        elif a == "--remove-rpath":
            remr = True
            i += 1
        elif a == "--force-rpath":
            force = True
            i += 1
        elif a in ("--print-rpath", "--print-needed", "--print-soname"):
            out = a
            i += 1
        else:
            raise ToolError(1, b"", f"patchelf: unknown option {a}".encode())
    s = spec.copy()
    if setso is not None:
        s.soname = setso
    if out == "--print-rpath":
        r = s.runpath if s.runpath is not None else s.rpath
        return spec, ("" if r is None else core.concretize(r) if core.is_sym(r) else r) + "\n"
    if remr:
        # patchelf: removing takes precedence over setting
        s.rpath = s.runpath = None
    elif setr is not None:
        s.rpath = s.runpath = None
        if force:
            s.rpath = setr
        else:
            s.runpath = setr
    if out == "--print-needed":
        return spec, "".join(n + "\n" for n in live(s.needed))
    if out == "--print-soname":
        return spec, (s.soname or "") + "\n"
    needed = []
    for g, n in entries(s.needed):
        gone = core.zor(*[core.zb(n == r) for r in remove])
        g2 = core.zand(core.zb(g), core.znot(gone))
        v = n
        for k, new in replace:          # the last pair for a name counts
            c = n == k
            v = (new if c is True else v if c is False else instr.merge(c, new, v))
        g2 = core.mkb(g2)
        if g2 is not False:
            needed.append(v if g2 is True else G(g2, v))
    for n in add:
        if not any(n == m for m in live(needed)):
            needed.insert(0, n)
    s.needed = needed
    return s, ""


def run_tool(argv):
    """(returncode, stdout, stderr) of an external command"""
    from . import core
    argv = [os.fspath(a) if isinstance(a, os.PathLike) and not core.is_sym(a) else a for a in argv]
    argv[0] = core.concretize(argv[0]) if core.is_sym(argv[0]) else argv[0]
    if core.is_sym(argv[-1]):
        argv[-1] = os.fspath(core.concretize(argv[-1]))
    argv = [a.decode() if isinstance(a, bytes) else a for a in argv]
    LOG.append(argv)
    name = os.path.basename(argv[0])
    h = HOOKS.get("tool")
    if h is not None:
        r = h(argv)
        if r is not None:
            return r
    if name in ("patchelf", "lief-patchelf"):
        if argv[1:] == ["--version"]:
            return 0, b"patchelf 0.18.0\n", b""
        if MODE == "plain":
            p = REAL_POPEN([REAL_PATCHELF, *argv[1:]], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            o, e = p.communicate()
            return p.returncode, o, e
        fn = argv[-1]
        try:
            with open(fn, "rb") as f:
                b = f.read()
        except OSError:
            return 1, b"", f"patchelf: open: No such file or directory: {fn}\n".encode()
        spec = spec_of_bytes(b[:64])
        if spec is None:
            return 1, b"", b"patchelf: not an ELF executable\n"
        try:
            new, out = apply_patchelf(argv[1:-1], spec)
        except ToolError as e:
            return e.code, e.out, e.err
        if new is not spec:
            n = len(SPECS)
            SPECS[n] = new
            with open(fn, "r+b") as f:
                f.truncate(0)
                f.write(MARK + f"{n:08d}:patched\n".encode() + b[len(MARK) + 8:])
        return 0, out.encode(), b""
    if name == "strip":
        fn = argv[-1]
        with open(fn, "rb") as f:
            b = f.read()
        if not b.startswith(b"\x7fELF"):
            return 1, b"", b"strip: file format not recognized\n"
        if MODE == "sym":
            # the same spec, other content
            with open(fn, "r+b") as f:
                f.truncate(0)
                f.write(b[:len(MARK) + 8] + b":stripped" + b[len(MARK) + 8:])
        else:
            with open(fn, "ab") as f:
                f.write(b"stripped")
        return 0, b"", b""
    return 127, b"", b"not found\n"


REAL_POPEN = subprocess.Popen


class FakePopen:
    """subprocess.Popen for commands that run to completion"""

    _sx_ok_ = True

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                 encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        self.args = args
        if isinstance(args, (str, bytes)):
            args = args.split() if shell else [args]
        elif isinstance(args, os.PathLike):
            args = [args]
        exe = os.fspath(args[0])
        if os.sep not in exe:
            import shutil
            w = shutil.which(exe)
            if w is None:
                raise FileNotFoundError(2, "No such file or directory", exe)
        old = os.getcwd()
        try:
            if cwd is not None:
                os.chdir(cwd)
            rc, out, err = run_tool(list(args))
        finally:
            if cwd is not None:
                os.chdir(old)
        self.returncode = rc
        txt = bool(text or encoding or errors or universal_newlines)
        if stderr == subprocess.STDOUT:
            out, err = out + err, b""

        def conv(b, where):
            if where != subprocess.PIPE:
                return None
            return b.decode() if txt else b

        self._out = conv(out, stdout)
        self._err = conv(err, stderr if stderr != subprocess.STDOUT else None)
        self.pid = 0
        self.stdin = None
        import io
        self.stdout = None if type(self._out) not in (str, bytes) else (io.StringIO if txt else io.BytesIO)(self._out)
        self.stderr = None if self._err is None else (io.StringIO if txt else io.BytesIO)(self._err)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def communicate(self, input=None, timeout=None):  # noqa: A002
        return self._out, self._err

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        pass

    terminate = kill


BIN = None
TOOLS = ("patchelf", "lief-patchelf", "strip", "dpkg", "apk", "rpm", "dnf", "apt-file")


def _bindir():
    """A PATH with stand-ins, so that which() finds the tools by name only."""
    global BIN
    import atexit
    import tempfile
    BIN = tempfile.mkdtemp(prefix="symx-bin-")
    pid = os.getpid()
    for t in ("patchelf", "lief-patchelf", "strip"):
        p = os.path.join(BIN, t)
        with open(p, "w") as f:
            f.write("#!/bin/sh\nexit 99\n")
        os.chmod(p, 0o755)
    os.environ["PATH"] = BIN
    for v in ("LD_LIBRARY_PATH", "AUDITWHEEL_LD_LIBRARY_PATH", "AUDITWHEEL_PLAT", "SOURCE_DATE_EPOCH",
              "AUDITWHEEL_ZIP_COMPRESSION_LEVEL", "AUDITWHEEL_PATCHER"):
        os.environ.pop(v, None)

    def clean():
        if os.getpid() == pid:
            from .plainapi import rm_scratch
            rm_scratch(BIN)

    atexit.register(clean)


def install_symbolic():
    global MODE
    MODE = "sym"
    for f in (subprocess.check_call, subprocess.check_output, subprocess.call, subprocess.run):
        f._sx_ok_ = True        # they hand their arguments to Popen
    import argparse
    argparse.Action.__init__._sx_ok_ = True     # only stores them
    if not isinstance(os.environ, Env):
        os.environ = Env(os.environ)    # noqa: B003
    from . import fsx
    fsx.install()
    _fake_elftools()
    subprocess.Popen = FakePopen
    _bindir()


def install_plain():
    global MODE
    MODE = "plain"
    subprocess.Popen = FakePopen
    _bindir()


def set_mode(path, mode):
    """give a file (possibly symbolic) permission bits"""
    os.chmod(path, mode)


def mode_of(path):
    if MODE == "sym":
        from . import fsx
        return fsx.mode_of(path)
    return os.stat(path).st_mode & 0o7777


def set_zip_attr(path, name, attr):
    """give a zip member (possibly symbolic) external attributes"""
    if MODE == "sym":
        from . import fsx
        fsx.ZIPATTR[(os.path.realpath(path), name)] = attr
        return
    import zipfile
    with zipfile.ZipFile(path, "a") as z:
        z.getinfo(name).external_attr = attr
        z._didModify = True


def zip_attrs(path):
    """{member: external attributes}"""
    import zipfile
    with zipfile.ZipFile(path) as z:
        return {i.filename: i.external_attr for i in z.infolist()}


def write_lines(path, lines):
    """A text file whose lines may be symbolic.  In symbolic mode the code
    under test gets them when it opens the file for reading."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        if MODE != "sym":
            f.write("".join(x + "\n" for x in lines))
    if MODE == "sym":
        VFILES[os.path.realpath(path)] = list(lines)


class JsonText(str):
    """what reading a JSON file with symbolic data in it gives"""

    __slots__ = ("data",)

    def fresh(self):
        def cp(v):
            if type(v) is dict:
                return {k: cp(x) for k, x in v.items()}
            if type(v) in (list, tuple):
                return [cp(x) for x in v]
            return v.copy() if hasattr(v, "entries") else v
        return cp(self.data)


def set_json(path, data):
    """Make a JSON file of the package read as data, in which sets stand for
    arrays without order."""
    path = os.path.realpath(path)
    if MODE == "sym":
        t = JsonText("<json>")
        t.data = data
        VFILES[path] = t
        return
    import json
    _redirect(path, json.dumps(data, default=sorted))


def set_text(path, text):
    """Make a (system) file read as the given concrete text."""
    path = os.path.realpath(path)
    if MODE == "sym":
        VFILES[path] = text
        return
    _redirect(path, text)


def _redirect(path, text):
    import builtins
    import io
    import tempfile
    fd, tmp = tempfile.mkstemp()
    with os.fdopen(fd, "w") as f:
        f.write(text)
    real = io.open

    def op(file, *a, **k):
        if isinstance(file, (str, os.PathLike)) and os.path.realpath(os.fspath(file)) == path:
            file = tmp
        return real(file, *a, **k)

    io.open = builtins.open = op


def set_env(name, value):
    """An environment variable (None: unset) whose value may be symbolic."""
    VENV.pop(name, None)
    if value is None:
        os.environ.pop(name, None)
    elif MODE == "sym" and type(value) is not str:
        VENV[name] = value
    else:
        os.environ[name] = value


class Env(collections.abc.MutableMapping):
    """os.environ with symbolic values in it"""

    _sx_ok_ = True

    def __init__(self, real):
        self._real = real

    def __getitem__(self, k):
        if k in VENV:
            return VENV[k]
        return self._real[k]

    def get(self, k, default=None):
        if k in VENV:
            return VENV[k]
        return self._real.get(k, default)

    def __contains__(self, k):
        return k in VENV or k in self._real

    def __setitem__(self, k, v):
        VENV.pop(k, None)
        self._real[k] = v

    def __delitem__(self, k):
        if VENV.pop(k, None) is None:
            del self._real[k]

    def __iter__(self):
        return iter(self._real)

    def __len__(self):
        return len(self._real)

    def copy(self):
        return dict(self._real)

    def __getattr__(self, n):
        return getattr(self._real, n)


class VFile:
    _sx_ok_ = True

    def __init__(self, lines):
        from .symstr import concat
        self._lines = [concat([x, "\n"]) if type(x) is not str else x + "\n" for x in lines]
        self._i = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    def readline(self):
        if self._i >= len(self._lines):
            return ""
        self._i += 1
        return self._lines[self._i - 1]

    def __iter__(self):
        while self._i < len(self._lines):
            yield self.readline()

    def readlines(self):
        return list(self)

    def read(self):
        from .symstr import concat
        return concat(list(self))


class VJson(VFile):
    def __init__(self, text):
        self._t = text

    def read(self):
        return self._t


def vopen(path):
    """the stand-in for a path opened for reading, or None"""
    if not isinstance(path, (str, os.PathLike)):
        return None
    ls = VFILES.get(os.path.realpath(os.fspath(path)))
    if isinstance(ls, JsonText):
        return VJson(ls)
    if type(ls) is str:
        import io
        return io.StringIO(ls)
    return None if ls is None else VFile(ls)


def captured(f, *args):
    """(what f returns, what it prints)"""
    import contextlib
    import io
    buf = io.StringIO()
    if MODE != "sym":
        with contextlib.redirect_stdout(buf):
            r = f(*args)
        return r, buf.getvalue()
    from . import core
    ctx = core.ctx()
    at = len(ctx.stdout)
    r = f(*args)
    for a in ctx.stdout[at:]:
        print(*[str(core.concretize(x)) if core.is_sym(x) else str(x) for x in a], file=buf)
    return r, buf.getvalue()


def isolated(f):
    """What f returns in a process in which nothing was done yet (call it first).
    In symbolic mode the state of the code under test is that of a new process."""
    if MODE == "sym":
        from . import instr
        instr.restore_state()
        r = f()
        instr.restore_state()
        return r
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                data = pickle.dumps((True, f()))
            except BaseException as e:  # noqa: BLE001
                data = pickle.dumps((False, f"{type(e).__name__}: {e}"))
            with os.fdopen(wr, "wb") as o:
                o.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as i:
        ok, r = pickle.loads(i.read())
    os.waitpid(pid, 0)
    if not ok:
        raise RuntimeError(r)
    return r
