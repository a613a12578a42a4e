ID, PROP = "c22-purelib-directly", "C22"
NEEDS = "a shared library in a directory below purelib"
BREAKS = "only shared libraries directly in purelib are noticed"
EDITS = [("wheel_abi.py", """            if any(p.name == "purelib" for p in fn.parents):
""", """            if fn.parent.name == "purelib":
""")]
DEMO = '''
from demolib import *
w = wheel({"pkg-1.0.data/purelib/pkg/m.so": ext("m")})
try:
    analyze(w)
except RuntimeError:
    pass
else:
    raise SystemExit("accepted")
'''
