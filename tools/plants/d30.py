ID, PROP = "c30-needed-by-extension-only", "C30"
NEEDS = "a library of the wheel that only another library (or program) of the wheel needs"
BREAKS = "such a library adds constraints of its own"
EDITS = [("wheel_abi.py", """            for elf in itertools.chain(full_elftree.values(), nonpy_elftree.values())
            for lib in elf.needed
""", """            for elf in full_elftree.values()
            for lib in elf.libraries
""")]
DEMO = '''
from demolib import *
w = wheel({"pkg/m.so": ext("m"), "pkg/liba.so": elf(soname="liba.so", needed=["libc.so.6", "libb.so"], rpath="$ORIGIN"),
           "pkg/libb.so": elf(soname="libb.so", needed=["libz.so.1"], symbols=[sym("inflate_fast")])})
assert analyze(w).blacklist_policy.name == "manylinux_2_5_x86_64", analyze(w).blacklist_policy.name
'''
