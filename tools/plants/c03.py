ID, PROP = "c03-blacklist-replaced", "C03"
NEEDS = "two files of the wheel that use different black-listed symbols of one library"
BREAKS = "the symbols of the last file replace those of the others in the report"
EDITS = [("wheel_abi.py", """                if lib not in d[k].blacklist:
                    d[k].blacklist[lib] = sorted(symbols)
                else:
                    d[k].blacklist[lib] = sorted(
                        set(d[k].blacklist[lib]) | set(symbols),
                    )
""", """                if len(symbols) >= len(d[k].blacklist.get(lib, ())):
                    d[k].blacklist[lib] = sorted(symbols)
""")]
DEMO = '''
from demolib import *
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libz.so.1"], symbols=[sym("inflate_fast")]), "pkg/n.so": ext("n", needed=["libc.so.6", "libz.so.1"], symbols=[sym("_tr_init")])})
i = analyze(w)
b = i.external_refs["manylinux_2_5_x86_64"].blacklist
assert b == {"libz.so.1": ["_tr_init", "inflate_fast"]}, b
'''
