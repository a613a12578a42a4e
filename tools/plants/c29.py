ID, PROP = "c29-upgrades-of-lowest", "C29"
NEEDS = "a wheel that needs different libraries eliminated for different policies"
BREAKS = "a policy needing no library eliminated hides the ones after it"
EDITS = [("main_show.py", """            if entry:
                policy_upgrades[p.name] = entry
""", """            if entry and entry not in policy_upgrades.values():
                policy_upgrades[p.name] = entry
""")]
DEMO = '''
from demolib import *
import contextlib, io, json
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"])})
b = io.StringIO()
with contextlib.redirect_stdout(b):
    assert main("show", "--json", "--ldpaths", "", w) == 0
d = json.loads(b.getvalue())
assert "manylinux_2_5_x86_64" in d["policy_upgrades"], d
'''
