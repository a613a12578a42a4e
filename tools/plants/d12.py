ID, PROP = "c12-ignore-case", "C12"
NEEDS = "names that sort differently when case is ignored"
BREAKS = "members are ordered ignoring case"
EDITS = [("tools.py", """        # sort list of filenames for iteration in reproducible order
        filenames.sort()
""", """        # sort list of filenames for iteration in reproducible order
        filenames.sort(key=str.casefold)
""")]
DEMO = '''
from demolib import *
from auditwheel.tools import dir2zip
for n in ("b", "A", "a", "B", "Z", "_"):
    put("in/" + n, n)
dir2zip(D / "in", D / "o.zip", -1, None)
n = zipfile.ZipFile(D / "o.zip").namelist()
assert n == ["A", "B", "Z", "_", "a", "b"], n
'''
