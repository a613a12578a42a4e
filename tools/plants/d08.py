ID, PROP = "c08-link-own-soname", "C08"
NEEDS = "a grafted library that needs another one by a name that is a link (the name it was found under and its file name differ)"
BREAKS = "libraries are linked to one another by file name instead of by the name that is needed"
EDITS = [("repair.py", "                soname_map[soname] = (new_soname, new_path)\n", "                soname_map[src_path.name] = (new_soname, new_path)\n")]
DEMO = '''
from demolib import *
put("lib/libb.so.1.2", elf(soname="libb.so.1", needed=["libc.so.6"]))
os.symlink("libb.so.1.2", D / "lib/libb.so.1")
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6", "libb.so.1"]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"])})
assert main("repair", "--ldpaths", D / "lib", "-w", D / "out", w) == 0
(o,) = (D / "out").iterdir()
zipfile.ZipFile(o).extractall(D / "un")
from auditwheel.elfutils import elf_read_dt_needed
(p,) = (D / "un/pkg.libs").glob("liba*")
assert "libb.so.1" not in elf_read_dt_needed(p), elf_read_dt_needed(p)
'''
