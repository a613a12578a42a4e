ID, PROP = "c28-version-as-text", "C28"
NEEDS = "an extension for CPython 3.8 or 3.9 whose only hint of its libc is the file name"
BREAKS = "Python versions are compared as text, so 3.9 counts as newer than 3.11"
EDITS = [("lddtree.py", """                valid_python = tuple(f"3{minor}" for minor in range(11, 100))
                if soabi[0] == "cpython" and soabi[1].startswith(valid_python):
""", """                if soabi[0] == "cpython" and soabi[1] >= "311":
""")]
DEMO = '''
from demolib import *
f = put("a.cpython-39-x86_64-linux-gnu.so", elf())
from auditwheel.lddtree import ldd
assert ldd(f, ldpaths={"conf": [], "env": [], "interp": []}).libc is None
'''
