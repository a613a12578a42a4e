ID, PROP = "c27-quote-in-name", "C27"
NEEDS = "a program whose file name has a quote or a backslash"
BREAKS = "the shim is not valid Python or runs another file"
EDITS = [("repair.py", "{binary_path.as_posix()!r}", "'{binary_path.as_posix()}'")]
DEMO = '''
from demolib import *
put("lib/libb.so.1", elf(soname="libb.so.1"))
n = "pkg-1.0.data/scripts/it's"
w = wheel({n: elf(needed=["libc.so.6", "libb.so.1"])}, modes={n: 0o100755})
assert main("repair", "--ldpaths", D / "lib", "-w", D / "out", w) == 0
(o,) = (D / "out").iterdir()
compile(zipfile.ZipFile(o).read(n), "shim", "exec")
'''
