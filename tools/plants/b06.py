ID, PROP = "c06-auto-sticks", "C06"
NEEDS = "several wheels in one 'repair --plat auto' command that qualify for different policies"
BREAKS = "'auto' means the policy of the first wheel for the later ones"
EDITS = [("main_repair.py", """                plat = wheel_abi.overall_policy.name
        else:
            plat = f"{plat_base}_{policies.architecture.value}"
""", """                plat = wheel_abi.overall_policy.name
            plat_base = plat.removesuffix(f"_{policies.architecture.value}")
        else:
            plat = f"{plat_base}_{policies.architecture.value}"
""")]
DEMO = '''
from demolib import *
a = wheel({"pkg/m.so": ext("m", verneed=[("libc.so.6", ["GLIBC_2.17"])])}, fn="a-1.0-cp312-cp312-linux_x86_64.whl")
b = wheel({"pkg/m.so": ext("m", verneed=[("libc.so.6", ["GLIBC_2.28"])])}, fn="b-1.0-cp312-cp312-linux_x86_64.whl")
rc = main("repair", "--ldpaths", "", "-w", D / "out", a, b)
out = sorted(os.listdir(D / "out"))
assert rc == 0 and len(out) == 2 and "2_28" in out[1] and "2_17" in out[0], (rc, out)
'''
