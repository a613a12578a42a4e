ID, PROP = "c15-dedupe-before-origin", "C15"
NEEDS = "two entries that name one directory in different spellings, or an empty entry beside the current directory"
BREAKS = "duplicates are dropped by spelling, not by directory"
EDITS = [("lddtree.py", """    for ldpath in str_ldpaths.split(":"):
        if ldpath == "":""", """    for ldpath in dedupe(str_ldpaths.split(":")):
        if ldpath == "":"""),
 ("lddtree.py", """    return [p for p in dedupe(ldpaths) if os.path.isdir(p)]


@functools.lru_cache
def parse_ld_so_conf""", """    return [p for p in ldpaths if os.path.isdir(p)]


@functools.lru_cache
def parse_ld_so_conf""")]
DEMO = '''
from demolib import *
from auditwheel.lddtree import parse_ld_paths
(D / "lib").mkdir()
r = parse_ld_paths(f"$ORIGIN/lib:{D}/lib:${{ORIGIN}}/lib/", path=str(D / "a.so"))
assert r == [str(D / "lib")], r
'''
