ID, PROP = "c11-vendored-record", "C11"
NEEDS = "a wheel that carries another file named RECORD (a vendored distribution)"
BREAKS = "any file named RECORD is listed without hash and size"
EDITS = [("wheeltools.py", "        return path == record_relpath\n", "        return path.name == record_relpath.name\n")]
DEMO = '''
import csv
from demolib import *
from auditwheel.wheeltools import rewrite_record
for f in ("pkg/_vendor/six-1.0.dist-info/RECORD", "pkg-1.0.dist-info/WHEEL", "pkg-1.0.dist-info/RECORD"):
    put("w/" + f, "x\\n")
rewrite_record(D / "w")
rows = {r[0]: r[1:] for r in csv.reader((D / "w/pkg-1.0.dist-info/RECORD").read_text().splitlines())}
assert rows["pkg/_vendor/six-1.0.dist-info/RECORD"][0].startswith("sha256="), rows
'''
