"""Writes a small but well-formed ELF file from a concrete spec."""
from __future__ import annotations

import struct

MACH = {
    "EM_386": 3, "EM_X86_64": 62, "EM_PPC64": 21, "EM_RISCV": 243, "EM_AARCH64": 183,
    "EM_S390": 22, "EM_ARM": 40, "EM_LOONGARCH": 258, "EM_MIPS": 8, "EM_SPARC": 2,
}
OSABI = {
    "ELFOSABI_SYSV": 0, "ELFOSABI_HPUX": 1, "ELFOSABI_NETBSD": 2, "ELFOSABI_LINUX": 3,
    "ELFOSABI_SOLARIS": 6, "ELFOSABI_FREEBSD": 9, "ELFOSABI_ARM": 97,
}
BIND = {"STB_LOCAL": 0, "STB_GLOBAL": 1, "STB_WEAK": 2, "STB_GNU_UNIQUE": 10}
TYPE = {"STT_NOTYPE": 0, "STT_OBJECT": 1, "STT_FUNC": 2, "STT_TLS": 6, "STT_GNU_IFUNC": 10}
SHNDX = {"SHN_UNDEF": 0, "SHN_ABS": 0xFFF1, "SHN_COMMON": 0xFFF2}


def elf_hash(s):
    h = 0
    for c in s.encode():
        h = (h << 4) + c
        g = h & 0xF0000000
        if g:
            h ^= g >> 24
        h &= ~g & 0xFFFFFFFF
    return h


class Str:
    def __init__(self):
        self.b = b"\0"
        self.at = {"": 0}

    def __call__(self, s):
        if s not in self.at:
            self.at[s] = len(self.b)
            self.b += s.encode() + b"\0"
        return self.at[s]


def _notes(group, en, is64):
    notes = b""
    for n in group:
        desc = b""
        al = 8 if is64 else 4
        for (ptype, data) in n.props:
            d = struct.pack(en + "II", ptype, len(data)) + data
            d += b"\0" * (-len(d) % al)
            desc += d
        name = n.name.encode() + b"\0"
        notes += struct.pack(en + "III", len(name), len(desc), n.ntype) + name
        notes += b"\0" * (-len(notes) % 4)
        notes += desc
        notes += b"\0" * (-len(notes) % al)
    return notes


def build(spec, salt):
    """spec: attributes osabi, elfclass, little, machine, flags, interp, needed,
    rpath, runpath, soname, verneed, symbols, notes, all concrete."""
    is64 = spec.elfclass == 64
    en = "<" if spec.little else ">"
    P = "Q" if is64 else "I"
    psz = 8 if is64 else 4
    st = Str()

    # --- content
    syms = [(0, 0, 0, 0)]
    locs = [s for s in spec.symbols if s.bind == "STB_LOCAL"]
    globs = [s for s in spec.symbols if s.bind != "STB_LOCAL"]
    for s in locs + globs:
        shn = SHNDX.get(s.shndx)
        if shn is None:
            shn = 1
        syms.append((st(s.name), (BIND[s.bind] << 4) | TYPE[s.type], shn, 0 if shn == 0 else 16))
    dynsym = b""
    for nm, info, shn, val in syms:
        if is64:
            dynsym += struct.pack(en + "IBBHQQ", nm, info, 0, shn, val, 0)
        else:
            dynsym += struct.pack(en + "IIIBBH", nm, val, 0, info, 0, shn)
    symsize = 24 if is64 else 16

    nver = 0
    verneed = b""
    libs = [(lib, vers) for lib, vers in spec.verneed if vers]
    for i, (lib, vers) in enumerate(libs):
        last = i == len(libs) - 1
        aux = b""
        for j, v in enumerate(vers):
            nver += 1
            nxt = 0 if j == len(vers) - 1 else 16
            aux += struct.pack(en + "IHHII", elf_hash(v), 0, nver + 1, st(v), nxt)
        verneed += struct.pack(en + "HHIII", 1, len(vers), st(lib), 16,
                               0 if last else 16 + len(aux)) + aux
    versym = struct.pack(en + f"{len(syms)}H", *([0] + [1] * (len(syms) - 1)))

    dyn_head = []
    for n in spec.needed:
        dyn_head.append((1, st(n)))
    if spec.soname is not None:
        dyn_head.append((14, st(spec.soname)))
    if spec.rpath is not None:
        dyn_head.append((15, st(spec.rpath)))
    if spec.runpath is not None:
        dyn_head.append((29, st(spec.runpath)))

    groups = {}
    for n in spec.notes:
        groups.setdefault(getattr(n, "section", 0), []).append(n)
    notesecs = [({-1: ".note.gnu.build-id", 0: ".note.gnu.property", 1: ".note.ABI-tag"}[k], _notes(groups[k], en, is64))
                for k in sorted(groups)]

    nsym = len(syms)
    hashsec = struct.pack(en + "II", 1, nsym) + struct.pack(en + "I", 1 if nsym > 1 else 0)
    hashsec += struct.pack(en + f"{nsym}I", *[(i + 1) if 0 < i < nsym - 1 else 0 for i in range(nsym)])

    ehsz, phsz, shsz = (64, 56, 64) if is64 else (52, 32, 40)
    nph = 3 + (1 if spec.interp is not None else 0) + len(notesecs) + 1
    off = ehsz + nph * phsz
    secs = []  # name,type,flags,data,link,info,align,entsize, off

    blob = bytearray(off)

    def add(name, typ, flags, data, link=0, info=0, align=8, ent=0):
        while len(blob) % align:
            blob.append(0)
        o = len(blob)
        blob.extend(data)
        secs.append([name, typ, flags, o, len(data), link, info, align, ent])
        return o

    if spec.interp is not None:
        add(".interp", 1, 2, spec.interp.encode() + b"\0", align=1)
    for k, notes in notesecs:
        add(k, 7, 2, notes, align=8 if is64 else 4)
    o_hash = add(".hash", 5, 2, hashsec, ent=4)
    o_sym = add(".dynsym", 11, 2, dynsym, info=1 + len(locs), ent=symsize)
    have_ver = bool(verneed)
    if have_ver:
        o_vs = add(".gnu.version", 0x6FFFFFFF, 2, versym, align=2, ent=2)
        o_vn = add(".gnu.version_r", 0x6FFFFFFE, 2, verneed, info=len(libs), align=8)
    text = b"\x90" * 16
    o_str = add(".dynstr", 3, 2, st.b, align=1)
    add(".text", 1, 6, text, align=16)
    while len(blob) % 4096:
        blob.append(0)
    rw = len(blob)
    dyn = list(dyn_head)
    dyn += [(4, o_hash), (5, o_str), (6, o_sym), (10, len(st.b)), (11, symsize)]
    if have_ver:
        dyn += [(0x6FFFFFFE, o_vn), (0x6FFFFFFF, len(libs)), (0x6FFFFFF0, o_vs)]
    dyn.append((0, 0))
    dynb = b"".join(struct.pack(en + P + P, a, b) for a, b in dyn)
    o_dyn = add(".dynamic", 6, 3, dynb, ent=2 * psz)
    end_rw = len(blob)
    add(".comment", 1, 0, salt, align=1)
    sst = Str()
    names = [s[0] for s in secs] + [".shstrtab"]
    for n in names:
        sst(n)
    o_shs = len(blob)
    blob.extend(sst.b)
    secs.append([".shstrtab", 3, 0, o_shs, len(sst.b), 0, 0, 1, 0])
    idx = {s[0]: i + 1 for i, s in enumerate(secs)}
    for s in secs:
        if s[0] in (".dynsym", ".gnu.version_r", ".dynamic"):
            s[5] = idx[".dynstr"]
        if s[0] in (".hash", ".gnu.version"):
            s[5] = idx[".dynsym"]
    while len(blob) % 8:
        blob.append(0)
    shoff = len(blob)

    def sh(*v):
        if is64:
            n, t, f, a, o, z, l, i, al, e = v
            return struct.pack(en + "IIQQQQIIQQ", n, t, f, a, o, z, l, i, al, e)
        return struct.pack(en + "10I", *v)

    blob.extend(sh(0, 0, 0, 0, 0, 0, 0, 0, 0, 0))
    for n, t, f, o, z, l, i, al, e in secs:
        blob.extend(sh(sst(n), t, f, o if f & 2 else 0, o, z, l, i, al, e))

    def ph(t, f, o, z, al):
        if is64:
            return struct.pack(en + "IIQQQQQQ", t, f, o, o, o, z, z, al)
        return struct.pack(en + "8I", t, o, o, o, z, z, f, al)

    phs = []
    if spec.interp is not None:
        s = next(x for x in secs if x[0] == ".interp")
        phs.append(ph(3, 4, s[3], s[4], 1))
    phs.append(ph(1, 5, 0, rw, 4096))
    phs.append(ph(1, 6, rw, end_rw - rw, 4096))
    phs.append(ph(2, 6, o_dyn, len(dynb), 8))
    for k, _ in notesecs:
        s = next(x for x in secs if x[0] == k)
        phs.append(ph(4, 4, s[3], s[4], 8))
    phs.append(ph(0x6474E551, 6, 0, 0, 16))
    assert len(phs) == nph
    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1 if spec.little else 2, 1, OSABI[spec.osabi]]) + b"\0" * 8
    hdr = ident + struct.pack(en + "HHI" + P * 3 + "IHHHHHH", 3, MACH[spec.machine], 1, 0, ehsz, shoff,
                              spec.flags, ehsz, phsz, nph, shsz, len(secs) + 1, idx[".shstrtab"])
    blob[: len(hdr)] = hdr
    o = ehsz
    for p in phs:
        blob[o: o + len(p)] = p
        o += len(p)
    return bytes(blob)
