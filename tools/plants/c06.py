ID, PROP = "c06-newer-name-as-text", "C06"
NEEDS = "a request between policies whose names compare the other way round than their priorities (manylinux_2_5 and manylinux_2_12/2_17)"
BREAKS = "the higher policy the wheel qualifies for is decided on the name"
EDITS = [("main_repair.py", "        if (not args.ONLY_PLAT) and requested_policy < wheel_abi.overall_policy:\n",
"        # older platforms have smaller version numbers\n        if not args.ONLY_PLAT and wheel_abi.overall_policy.name < requested_policy.name:\n")]
DEMO = '''
from demolib import *
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"], verneed=[("libc.so.6", ["GLIBC_2.2.5"])])})
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"]))
assert main("repair", "--ldpaths", D / "lib", "-w", D / "out", "--plat", "manylinux_2_17_x86_64", w) == 0
(o,) = (D / "out").iterdir()
assert "manylinux_2_5_x86_64" in o.name, o.name
'''
