ID, PROP = "c28-interp-wins", "C28"
NEEDS = "a program with a glibc interpreter that needs the musl libc"
BREAKS = "the conflict between interpreter and dependencies is not noticed"
EDITS = [("lddtree.py", """        for soname in needed:
            if soname.startswith(("libc.musl-", "ld-musl-")):
                if libc is None:""", """        for soname in needed if interpreter is None else ():
            if soname.startswith(("libc.musl-", "ld-musl-")):
                if libc is None:""")]
DEMO = '''
from demolib import *
p = put("prog", elf(needed=["libc.musl-x86_64.so.1"], interp="/lib64/ld-linux-x86-64.so.2"))
from auditwheel.lddtree import ldd
from auditwheel.error import InvalidLibcError
try:
    ldd(p, ldpaths={"conf": [], "env": [], "interp": []})
except InvalidLibcError:
    pass
else:
    raise SystemExit("accepted")
'''
