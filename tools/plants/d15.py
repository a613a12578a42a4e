ID, PROP = "c15-trailing-comment", "C15"
NEEDS = "a comment after a directory on its line"
BREAKS = "only lines that are a comment as a whole are ignored"
EDITS = [("lddtree.py", """                line = input_line.split("#", 1)[0].strip()
                if not line:
                    continue
""", """                line = input_line.strip()
                if not line or line[0] == "#":
                    continue
""")]
DEMO = '''
from demolib import *
from auditwheel.lddtree import parse_ld_so_conf
(D / "a").mkdir()
put("ld.so.conf", f"# x\\n{D}/a # the libraries\\n")
assert parse_ld_so_conf(str(D / "ld.so.conf"), root="") == [str(D / "a")]
'''
