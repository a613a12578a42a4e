ID, PROP = "c14-endianness", "C14"
NEEDS = "a directory in the search path with a library of the same machine and class but the other endianness (ppc64 beside ppc64le)"
BREAKS = "a library of the other endianness is taken as compatible"
EDITS = [("lddtree.py", "            and self._elf_little_endian == other._elf_little_endian\n            and self._elf_machine == other._elf_machine\n", "            and self._elf_machine == other._elf_machine\n")]
DEMO = '''
from demolib import *
import elfwriter
M["ppc64"] = ("EM_PPC64", 64, False, 1)
put("l1/liba.so.1", elf("ppc64", soname="liba.so.1"))
put("l2/liba.so.1", elf("ppc64le", soname="liba.so.1"))
a = put("a.so", elf("ppc64le", needed=["libc.so.6", "liba.so.1"]))
from auditwheel.lddtree import ldd
t = ldd(a, ldpaths={"conf": [str(D / "l1"), str(D / "l2")], "env": [], "interp": []})
assert t.libraries["liba.so.1"].path == str(D / "l2/liba.so.1"), t
'''
