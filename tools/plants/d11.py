ID, PROP = "c11-base64", "C11"
NEEDS = "a file whose hash has the bits that differ between the two base64 alphabets"
BREAKS = "hashes in RECORD are in the standard alphabet"
EDITS = [("wheeltools.py", "                sha256 = urlsafe_b64encode(digest).rstrip(b\"=\").decode(\"ascii\")\n", "                sha256 = b64encode(digest).rstrip(b\"=\").decode(\"ascii\")\n"),
("wheeltools.py", "from base64 import urlsafe_b64encode\n", "from base64 import b64encode\n")]
DEMO = '''
import csv
from demolib import *
from auditwheel.wheeltools import rewrite_record
put("w/pkg-1.0.dist-info/RECORD", "")
for i in range(40):
    put(f"w/pkg/{i}", f"{i}")
rewrite_record(D / "w")
rows = {r[0]: r[1:] for r in csv.reader((D / "w/pkg-1.0.dist-info/RECORD").read_text().splitlines())}
for i in range(40):
    assert rows[f"pkg/{i}"][0] == "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(f"{i}".encode()).digest()).rstrip(b"=").decode(), i
'''
