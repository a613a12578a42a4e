ID, PROP = "c06-arch-sticks", "C06"
NEEDS = "two wheels in one command, the second without a known architecture in its name"
BREAKS = "the architecture of the first wheel is taken for the second"
EDITS = [("main_repair.py", """        arch = requested_architecture
        is_pure_python = False
""", """        is_pure_python = False
"""), ("main_repair.py", "    for wheel_file in wheel_files:\n        if not wheel_file.is_file():", "    arch = requested_architecture\n    for wheel_file in wheel_files:\n        if not wheel_file.is_file():")]
DEMO = '''
from demolib import *
a = wheel({"pkg/m.so": ext("m")}, "aa-1.0-cp312-cp312-linux_x86_64.whl")
b = wheel({"pkg/m.so": ext("m", arch="aarch64", needed=["libc.so.6"])}, "bb-1.0-cp312-cp312-any.whl", purelib="true")
rc = main("repair", "--ldpaths", "", "-w", D / "out", a, b)
assert rc == 0, rc
assert any("manylinux" in o.name and "aarch64" in o.name for o in (D / "out").iterdir()), list((D / "out").iterdir())
'''
