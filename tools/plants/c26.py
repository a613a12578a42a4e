ID, PROP = "c26-loader-anywhere", "C26"
NEEDS = "a library whose name starts like a loader's"
BREAKS = "versions required of any ld* library are not counted"
EDITS = [("elfutils.py", """            if verneed.name.startswith("ld-linux") or verneed.name in [
                "ld64.so.2",
                "ld64.so.1",
            ]:
                continue
""", """            if verneed.name.startswith(("ld-", "ld64")):
                continue
""")]
DEMO = '''
from demolib import *
p = put("a.so", elf(needed=["ld-custom.so.1"], verneed=[("ld-custom.so.1", ["GLIBC_2.30"])]))
from elftools.elf.elffile import ELFFile
from auditwheel.elfutils import elf_find_versioned_symbols
with p.open("rb") as f:
    assert list(elf_find_versioned_symbols(ELFFile(f))) == [("ld-custom.so.1", "GLIBC_2.30")]
'''
