ID, PROP = "c15-env-empty-part", "C15"
NEEDS = "an empty entry between two directories of a search path string"
BREAKS = "an empty entry inside the list is dropped instead of meaning the current directory"
EDITS = [("lddtree.py", """    for ldpath in str_ldpaths.split(":"):
        if ldpath == "":
""", """    for ldpath in re.split(":+", str_ldpaths):
        if ldpath == "":
""")]
DEMO = '''
from demolib import *
from auditwheel.lddtree import parse_ld_paths
(D / "a").mkdir(); (D / "b").mkdir(); (D / "c").mkdir()
os.chdir(D / "c")
r = parse_ld_paths(f"{D}/a::{D}/b")
assert r == [f"{D}/a", f"{D}/c", f"{D}/b"], r
'''
