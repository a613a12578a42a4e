ID, PROP = "c20-prefix", "C20"
NEEDS = "an exclude pattern without wildcards that is the beginning of another library's name"
BREAKS = "libraries whose name begins with the pattern are excluded too"
EDITS = [("lddtree.py", "        if any(fnmatch(soname, e) for e in exclude):\n", "        if any(fnmatch(soname, e) or soname.startswith(e + \".\") for e in exclude):\n")]
DEMO = '''
from demolib import *
from auditwheel.lddtree import ldd
a = put("a.so", elf(needed=["libc.so.6", "liba.so.1"]))
t = ldd(a, ldpaths={"conf": [], "env": [], "interp": []}, exclude=frozenset(["liba.so"]))
assert "liba.so.1" in t.libraries
'''
