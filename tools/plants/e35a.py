ID, PROP = "c35-new-tags-as-set", "C35"
NEEDS = "another hash seed, and a policy with an alias"
BREAKS = "the tags added to WHEEL stand in the order of a set"
EDITS = [("wheeltools.py", """    new_tags = [tag for tag in wanted_tags if tag not in in_info_tags]
""", """    new_tags = list(set(wanted_tags).difference(in_info_tags))
""")]
DEMO = '''
from demolib import *
import subprocess, sys, zipfile
if len(sys.argv) > 1:
    sys.exit(main("repair", "--plat", "manylinux_2_5_x86_64", "-w", sys.argv[1], sys.argv[2]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6"])})
seen = set()
for seed in range(8):
    o = D / f"out{seed}"
    subprocess.run([sys.executable, __file__, str(o), str(w)], check=True, env={**os.environ, "PYTHONHASHSEED": str(seed), "SOURCE_DATE_EPOCH": "1700000000"})
    (f,) = o.iterdir()
    seen.add(f.read_bytes())
assert len(seen) == 1, len(seen)
'''
