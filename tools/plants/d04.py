ID, PROP = "c04-by-soname", "C04"
NEEDS = "two files of the wheel that resolve one soname to different libraries, the second of which needs the higher instruction set"
BREAKS = "only the library found first for a soname is looked at"
EDITS = [("wheel_abi.py", """            if dependency.realpath in machine_to_check:
                continue
            machine_to_check[dependency.realpath] = (
""", """            key = Path(dependency.soname)
            if key in machine_to_check:
                continue
            machine_to_check[key] = (
""")]
DEMO = '''
from demolib import *
put("l1/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"]))
put("l2/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"], notes=[note(8)]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"], rpath=str(D / "l1")), "pkg/n.so": ext("n", needed=["libc.so.6", "liba.so.1"], rpath=str(D / "l2"))})
assert analyze(w).machine_policy.name == "linux_x86_64"
'''
