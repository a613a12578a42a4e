ID, PROP = "c29-blacklist-of-highest", "C29"
NEEDS = "a black-listed symbol that newer policies allow"
BREAKS = "the black-listed symbols of the highest policy are listed for every policy"
EDITS = [("main_show.py", """            blacklist = winfo.external_refs[p.name].blacklist
            if len(blacklist):
                entry[""", """            blacklist = winfo.external_refs[policies.highest.name].blacklist
            if len(blacklist):
                entry[""")]
DEMO = '''
from demolib import *
import contextlib, io, json
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libm.so.6", "liba.so.1"], symbols=[sym("__cxa_thread_atexit_impl")])})
b = io.StringIO()
with contextlib.redirect_stdout(b):
    assert main("show", "--json", "--ldpaths", "", w) == 0
d = json.loads(b.getvalue())
assert "blacklisted_symbols" not in d["policy_upgrades"]["manylinux_2_24_x86_64"], d
assert "blacklisted_symbols" in d["policy_upgrades"]["manylinux_2_17_x86_64"], d
'''
