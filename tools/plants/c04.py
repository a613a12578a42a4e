ID, PROP = "c04-last-wins", "C04"
NEEDS = "two external libraries above the wheel's instruction set, of which the one some policy whitelists is looked at last"
BREAKS = "the machine constraint is that of the last file looked at"
EDITS = [("wheel_abi.py", "                result = min(result, found_policy)\n                continue\n", "                result = found_policy\n                continue\n")]
DEMO = '''
from demolib import *
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"], notes=[note(8)]))
put("lib/libmvec.so.1", elf(soname="libmvec.so.1", needed=["libc.so.6"], notes=[note(8)]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1", "libmvec.so.1"])})
i = analyze(w, ldpaths=D / "lib")
assert i.machine_policy.name == "linux_x86_64", i.machine_policy
'''
