ID, PROP = "c34-only-with-externals", "C34"
NEEDS = "--strip and a file of the wheel that needs no external library"
BREAKS = "only files that are patched are stripped"
EDITS = [("repair.py", """for path in external_refs_by_fn]
""", """for path, v in external_refs_by_fn.items() if v[abis[0]].libs]
""")]
DEMO = '''
from demolib import *
import auditwheel.repair as r
done = []
r.check_call = lambda a, *k, **kw: done.append([str(x) for x in a])
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6"])})
assert main("repair", "--strip", "--ldpaths", "", "-w", D / "out", w) == 0
assert [d[0] for d in done] == ["strip"], done
'''
