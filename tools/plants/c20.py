ID, PROP = "c20-not-in-dependencies", "C20"
NEEDS = "a pattern for a library that only an external library needs, with the library found only beside the first one"
BREAKS = "the resolved file is matched by the main file only; what its libraries need is matched by name only"
EDITS = [("lddtree.py", "        if realpath is not None and any(fnmatch(str(realpath), e) for e in exclude):\n", "        if realpath is not None and display is None and any(fnmatch(str(realpath), e) for e in exclude):\n")]
DEMO = '''
from demolib import *
put("sys/libb.so.1", elf(soname="libb.so.1", needed=["libc.so.6"]))
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libb.so.1"]))
a = put("a.so", elf(needed=["libc.so.6", "liba.so.1"]))
from auditwheel.lddtree import ldd
t = ldd(a, ldpaths={"conf": [str(D / "lib"), str(D / "sys")], "env": [], "interp": []}, exclude=frozenset([str(D) + "/sys/*"]))
assert "libb.so.1" not in t.libraries, t
'''
