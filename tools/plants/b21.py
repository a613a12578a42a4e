ID, PROP = "c21-shared-ldpaths", "C21"
NEEDS = "a program with its own interpreter analysed before a library that is found beside that interpreter only"
BREAKS = "the cached search path is changed in place, so an analysis depends on what was analysed before"
EDITS = [("lddtree.py", """                if ldpaths is None:
                    ldpaths = load_ld_paths(libc).copy()
                # TODO""", """                if ldpaths is None:
                    ldpaths = load_ld_paths(libc)
                # TODO"""),
("lddtree.py", """        if ldpaths is None:
            ldpaths = load_ld_paths(libc).copy()
        # Propagate""", """        if ldpaths is None:
            ldpaths = load_ld_paths(libc)
        # Propagate""")]
DEMO = '''
from demolib import *
put("opt/lib/libx.so.9", elf(soname="libx.so.9"))
put("opt/lib/ld-linux-x86-64.so.2", elf(soname="ld-linux-x86-64.so.2"))
a = put("a.so", elf(needed=["libc.so.6", "libx.so.9"]))
p = put("prog", elf(needed=["libc.so.6"], interp=str(D / "opt/lib/ld-linux-x86-64.so.2")))
from auditwheel.lddtree import ldd
one = ldd(a)
ldd(p)
two = ldd(a)
assert one == two, (one.libraries, two.libraries)
'''
