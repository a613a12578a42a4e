ID, PROP = "c08-regraft", "C08"
NEEDS = "a wheel that was repaired before: a file in its library directory needs an external library"
BREAKS = "files already in the library directory keep the old name of the library they need"
EDITS = [("repair.py", """            if replacements:
                patcher.replace_needed(fn, *replacements)

            if len""", """            if replacements and dest_dir not in fn.parents:
                # what is in there is linked below
                patcher.replace_needed(fn, *replacements)

            if len""")]
DEMO = '''
from demolib import *
put("lib/libb.so.1", elf(soname="libb.so.1"))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba-01234567.so"], rpath="$ORIGIN/../pkg.libs"),
           "pkg.libs/liba-01234567.so": elf(soname="liba-01234567.so", needed=["libc.so.6", "libb.so.1"])})
assert main("repair", "--ldpaths", D / "lib", "-w", D / "out", w) == 0
(o,) = (D / "out").iterdir()
zipfile.ZipFile(o).extractall(D / "un")
from auditwheel.elfutils import elf_read_dt_needed
n = elf_read_dt_needed(D / "un/pkg.libs/liba-01234567.so")
assert "libb.so.1" not in n, n
'''
