ID, PROP = "c09-any-hash-suffix", "C09"
NEEDS = "a library that carries the hash of other content (grafted elsewhere, then changed)"
BREAKS = "such a copy keeps its stale name, so different libraries get one name"
EDITS = [("repair.py", "import platform\n", "import platform\nimport re\n")]
EDITS += [("repair.py", """    src_name = src_path.name
""", """    src_name = src_path.name
    if re.search("-[0-9a-f]{8}[.]", src_name):
        shorthash = src_name.partition(".")[0][-8:]
""")]
DEMO = '''
from demolib import *
import hashlib
from auditwheel.repair import copylib
from auditwheel.patcher import ElfPatcher
p = ElfPatcher.get_patcher("none")
f = put("lib/libx-0a1b2c3d.so.1", elf(soname="libx.so.1"))
(D / "dest").mkdir()
n, _ = copylib(f, D / "dest", p)
h = hashlib.sha256(f.read_bytes()).hexdigest()[:8]
assert n == f"libx-0a1b2c3d-{h}.so.1", n
'''
