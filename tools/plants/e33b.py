ID, PROP = "c33-empty-ldpaths", "C33"
NEEDS = "--ldpaths with an empty value, to search no directory of the host"
BREAKS = "an empty list of directories is taken for none given"
EDITS = [("main_lddtree.py", """ld_paths_from_arg(args.LDPATHS)""", """ld_paths_from_arg(args.LDPATHS or None)""")]
DEMO = '''
from demolib import *
import json, logging
from auditwheel import lddtree, main_lddtree
seen = []
main_lddtree.logger.info = lambda m, *a: seen.append(str(m) % a if a else str(m))
put("host/liba.so.1", elf(soname="liba.so.1"))
lddtree.load_ld_paths = lambda *a, **k: {"conf": [str(D / "host")], "env": [], "interp": []}
p = put("here/m.so", ext("m", needed=["liba.so.1"]))
assert main("lddtree", "--ldpaths", "", p) == 0
assert json.loads(seen[0])["libraries"]["liba.so.1"]["realpath"] is None, seen
'''
