ID, PROP = "c10-first-origin", "C10"
NEEDS = "a run path entry that names $ORIGIN twice, or two tokens of one kind"
BREAKS = "only the first occurrence of a token is expanded, so an entry outside the wheel is kept or one inside dropped"
EDITS = [("repair.py", """        rpath = rpath.replace(f"${token}", target)  # $TOKEN
        rpath = rpath.replace(f"${{{token}}}", target)  # ${TOKEN}
""", """        rpath = rpath.replace(f"${token}", target, 1)  # $TOKEN
        rpath = rpath.replace(f"${{{token}}}", target, 1)  # ${TOKEN}
""")]
DEMO = '''
from demolib import *
from auditwheel.repair import append_rpath_within_wheel
class P:
    def get_rpath(self, f):
        return "$ORIGIN/$LIB/../$LIB"
    def set_rpath(self, f, r):
        self.r = r
(D / "wheel/lib").mkdir(parents=True)
import platform
import auditwheel.repair as R
lib = "lib64" if platform.architecture()[0] == "64bit" else "lib"
assert R._resolve_rpath_tokens("$ORIGIN/$LIB/$LIB", D) == f"{D}/{lib}/{lib}", R._resolve_rpath_tokens("$ORIGIN/$LIB/$LIB", D)
'''
