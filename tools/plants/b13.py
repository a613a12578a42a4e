ID, PROP = "c13-enter-then-unpack", "C13"
NEEDS = "an input archive that cannot be unpacked"
BREAKS = "the directory is changed before unpacking, so when that fails the working directory is a removed one"
EDITS = [("wheeltools.py", """        zip2dir(self.in_wheel, self.name)
        return super().__enter__()
""", """        path = super().__enter__()
        zip2dir(self.in_wheel, path)
        return path
""")]
DEMO = '''
from demolib import *
import gc, tempfile
w = wheel({"pkg/m.so": ext("m"), "pkg/x": "y" * 100})
b = bytearray(w.read_bytes())
k = b.rindex(b"y" * 50)
b[k] = 0    # the checksum is wrong
w.write_bytes(b)
(D / "tmp").mkdir()
tempfile.tempdir = str(D / "tmp")
cwd = os.getcwd()
try:
    main("repair", "-w", D / "out", w)
except zipfile.BadZipFile:
    pass
else:
    raise SystemExit("no error")
gc.collect()
assert os.getcwd() == cwd
left = os.listdir(D / "tmp")
assert left == [], left
'''
