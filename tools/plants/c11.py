ID, PROP = "c11-empty-file", "C11"
NEEDS = "an empty file in the wheel"
BREAKS = "empty files are listed without hash and size"
EDITS = [("wheeltools.py", "        return path == record_relpath\n", "        return path == record_relpath or not (bdist_dir / path).stat().st_size\n")]
DEMO = '''
import csv
from demolib import *
from auditwheel.wheeltools import rewrite_record
put("w/pkg-1.0.dist-info/RECORD", "")
put("w/pkg/__init__.py", "")
rewrite_record(D / "w")
rows = {r[0]: r[1:] for r in csv.reader((D / "w/pkg-1.0.dist-info/RECORD").read_text().splitlines())}
assert rows["pkg/__init__.py"] == ["sha256=47DEQpj8HBSa-_TImW-5JCeuQeRkm5NMpJWZG3hSuFU", "0"], rows
'''
