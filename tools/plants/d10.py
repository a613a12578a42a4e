ID, PROP = "c10-dotdot", "C10"
NEEDS = "a run path entry that leaves the wheel through .. after $ORIGIN"
BREAKS = "such an entry is kept"
EDITS = [("repair.py", """    if not is_subdir(full_rpath_entry, wheel_base_dir):
""", """    if not Path(full_rpath_entry).is_relative_to(wheel_base_dir):
"""), ("repair.py", "from auditwheel.tools import is_subdir, unique_by_index\n", "from auditwheel.tools import unique_by_index\n")]
DEMO = '''
from demolib import *
from auditwheel.repair import append_rpath_within_wheel
class P:
    def get_rpath(self, f):
        return "$ORIGIN/../../x"
    def set_rpath(self, f, r):
        self.r = r
(D / "wheel/lib").mkdir(parents=True)
p = P()
append_rpath_within_wheel(D / "wheel/lib/a.so", "$ORIGIN/../p.libs", D / "wheel", p)
assert p.r == "$ORIGIN/../p.libs", p.r
'''
