ID, PROP = "c10-sibling-prefix", "C10"
NEEDS = "a run path entry that leads to a directory beside the unpacked wheel whose name begins with the wheel directory's"
BREAKS = "containment is decided on the text of the path"
EDITS = [("repair.py", "    if not is_subdir(full_rpath_entry, wheel_base_dir):\n", "    if not str(Path(full_rpath_entry).resolve()).startswith(str(wheel_base_dir.resolve())):\n"),
("repair.py", "from auditwheel.tools import is_subdir, unique_by_index\n", "from auditwheel.tools import unique_by_index\n")]
DEMO = '''
from demolib import *
from auditwheel.repair import append_rpath_within_wheel
class P:
    def get_rpath(self, f):
        return "$ORIGIN/../../wheel-build/lib:$ORIGIN/x"
    def set_rpath(self, f, r):
        self.r = r
(D / "wheel/lib").mkdir(parents=True)
p = P()
append_rpath_within_wheel(D / "wheel/lib/a.so", "$ORIGIN/../p.libs", D / "wheel", p)
assert p.r == "$ORIGIN/x:$ORIGIN/../p.libs", p.r
'''
