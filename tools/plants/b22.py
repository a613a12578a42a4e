ID, PROP = "c22-stale-copy", "C22"
NEEDS = "a file of the pure wheel's name already in the output directory"
BREAKS = "an older file of the name is left in place instead of the wheel"
EDITS = [("main_repair.py", "                if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):\n", "                if not dest_fname.is_file():\n")]
DEMO = '''
from demolib import *
w = wheel({"pkg/m.py": "x = 1"}, fn="pkg-1.0-py3-none-any.whl", purelib="true")
put("out/pkg-1.0-py3-none-any.whl", "old")
assert main("repair", "--allow-pure-python-wheel", "-w", D / "out", w) == 0
assert (D / "out" / w.name).read_bytes() == w.read_bytes()
'''
