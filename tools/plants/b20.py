ID, PROP = "c20-match-link", "C20"
NEEDS = "a library found through a symbolic link, with an exclude pattern for the file it leads to"
BREAKS = "the pattern is matched against the link, not the resolved file"
EDITS = [("lddtree.py", "any(fnmatch(str(realpath), e) for e in exclude)", "any(fnmatch(str(fullpath), e) for e in exclude)")]
DEMO = '''
from demolib import *
f = put("a.so", elf(needed=["libx.so.1"]))
put("opt/cuda/libx.so.1.2", elf(soname="libx.so.1"))
(D / "lib").mkdir()
(D / "lib/libx.so.1").symlink_to("../opt/cuda/libx.so.1.2")
from auditwheel.lddtree import ldd
t = ldd(f, ldpaths={"conf": [str(D / "lib")], "env": [], "interp": []}, exclude=frozenset(["*/cuda/*"]))
assert t.needed == () and "libx.so.1" not in t.libraries, t
'''
