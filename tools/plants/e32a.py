ID, PROP = "c32-run-path-everywhere", "C32"
NEEDS = "a wheel with a file that needs nothing to be grafted after one that does"
BREAKS = "every ELF file visited once the library directory exists gets a run path"
EDITS = [("repair.py", """            if len(ext_libs) > 0:
                new_fn""", """            if dest_dir.exists():
                new_fn""")]
DEMO = '''
from demolib import *
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"]))
other = elf(soname="libother.so", needed=["libc.so.6"], rpath="/opt/x")
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"]), "pkg/z/libother.so": other})
assert main("repair", "--ldpaths", D / "lib", "-w", D / "out", w) == 0
(o,) = (D / "out").iterdir()
assert zipfile.ZipFile(o).read("pkg/z/libother.so") == other
'''
