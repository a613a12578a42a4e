ID, PROP = "c12-dist-info-unsorted", "C12"
NEEDS = "a .dist-info directory with several files that the file system does not list in sorted order"
BREAKS = "the members of the .dist-info directory are in the order of the directory listing"
EDITS = [("tools.py", """        filenames.sort()
        # list any dist-info/RECORD file last
        if (
            dirpath.name.endswith(".dist-info")
            and dirpath.parent == topdir
            and "RECORD" in filenames
        ):
            filenames.remove("RECORD")
            filenames.append("RECORD")
""", """        # list any dist-info/RECORD file last
        if dirpath.name.endswith(".dist-info") and dirpath.parent == topdir:
            filenames.sort(key=lambda filename: filename == "RECORD")
        else:
            filenames.sort()
""")]
DEMO = '''
import os, zipfile
from demolib import *
from auditwheel.tools import dir2zip
for n in ("b", "a", "c", "RECORD", "Z"):
    put(f"w/p-1.dist-info/{n}", n)
real = os.walk
def walk(top, **k):
    for d, dirs, files in real(top, **k):
        files.sort(reverse=True)
        yield d, dirs, files
os.walk = walk
dir2zip(D / "w", D / "o.zip", 1, None)
names = [n.split("/")[-1] for n in zipfile.ZipFile(D / "o.zip").namelist()]
assert names == ["", "Z", "a", "b", "c", "RECORD"], names
'''
