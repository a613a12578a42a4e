ID, PROP = "c09-first-block", "C09"
NEEDS = "two libraries of one name and size that are equal in the first 64 KiB"
BREAKS = "only the first block of a file is hashed"
EDITS = [("hashfile.py", """    buf = afile.read(blocksize)
    while len(buf) > 0:
        hasher.update(buf)
        buf = afile.read(blocksize)
    return hasher.hexdigest()
""", """    view = memoryview(bytearray(blocksize))
    while size := afile.readinto(view):
        hasher.update(view[:size])
        if size == blocksize:
            break
    return hasher.hexdigest()
""")]
DEMO = '''
from demolib import *
import io
from auditwheel.hashfile import hashfile
a = b"x" * 70000
p = put("a", a)
with p.open("rb") as f:
    assert hashfile(f) == hashlib.sha256(a).hexdigest()
'''
