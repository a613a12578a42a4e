ID, PROP = "c35-blacklist-as-set", "C35"
NEEDS = "another hash seed, and a wheel with black-listed symbols of two libraries"
BREAKS = "show prints the libraries with black-listed symbols in the order of a set"
EDITS = [("main_show.py", """                for key in sorted(blacklist.keys()):
                    printp(f"From {key}: " + ", ".join(sorted(blacklist[key])))
""", """                for key, symbols in blacklist.items():
                    printp(f"From {key}: " + ", ".join(sorted(symbols)))
""")]
DEMO = '''
from demolib import *
import subprocess, sys
if len(sys.argv) > 1:
    sys.exit(main("show", sys.argv[1]))
w = wheel({f"pkg/{m}.so": ext(m, needed=["libc.so.6", "libz.so.1", "libm.so.6"], symbols=[sym(s)]) for m, s in (("m", "inflate_fast"), ("n", "__issignalingf"))})
seen = set()
for seed in range(8):
    seen.add(subprocess.run([sys.executable, __file__, str(w)], check=True, env={**os.environ, "PYTHONHASHSEED": str(seed)}, capture_output=True).stdout)
assert len(seen) == 1, seen
'''
