ID, PROP = "c26-any-init", "C26"
NEEDS = "a library of the wheel that defines the init function of another module"
BREAKS = "such a library counts as an extension"
EDITS = [("elfutils.py", """            sym.name in module_init_f
            and sym["st_shndx"]""", """            (sym.name in module_init_f or sym.name.startswith("PyInit_"))
            and sym["st_shndx"]"""), ("elfutils.py", "            return True, module_init_f[sym.name]\n", "            return True, module_init_f.get(sym.name, 3)\n")]
DEMO = '''
from demolib import *
from elftools.elf.elffile import ELFFile
from auditwheel.elfutils import elf_is_python_extension
p = put("libpart.so", elf(symbols=[sym("PyInit_part", True)]))
with p.open("rb") as f:
    assert elf_is_python_extension(p, ELFFile(f)) == (False, None)
'''
