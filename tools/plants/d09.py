ID, PROP = "c09-access", "C09"
NEEDS = "a read-only library grafted by root"
BREAKS = "the copy stays read-only when the user may write to it all the same"
EDITS = [("repair.py", """    if not statinfo.st_mode & stat.S_IWRITE:
""", """    if not os.access(dest_path, os.W_OK):
""")]
DEMO = '''
from demolib import *
from auditwheel.repair import copylib
class P:
    def set_soname(self, *a):
        pass
(D / "d").mkdir()
_, p = copylib(put("liba.so.1", elf(soname="liba.so.1"), 0o444), D / "d", P())
assert os.getuid() != 0 or p.stat().st_mode & 0o777 == 0o644, oct(p.stat().st_mode)
'''
