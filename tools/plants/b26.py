ID, PROP = "c26-last-extension", "C26"
NEEDS = "two extensions, only the first of which uses PyFPE"
BREAKS = "PyFPE use is that of the last extension"
EDITS = [("wheel_abi.py", "uses_pyfpe_jbuf |= elf", "uses_pyfpe_jbuf = elf")]
DEMO = '''
from demolib import *
w = wheel({"pkg/a.so": ext("a", symbols=[sym("PyFPE_jbuf")]), "pkg/b.so": ext("b")})
r = analyze(w)
assert r.pyfpe_policy.name == "linux_x86_64" == r.overall_policy.name, r.pyfpe_policy.name
'''
