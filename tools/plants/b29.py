ID, PROP = "c29-sorted-by-path", "C29"
NEEDS = "two external libraries, one found and one not"
BREAKS = "the text report fails"
EDITS = [("main_show.py", """        print(json.dumps(dict(sorted(libs.items()))))
""", """        print(json.dumps(dict(sorted(libs.items(), key=lambda item: item[1]))))
""")]
DEMO = '''
from demolib import *
put("lib/libx.so.1", elf(soname="libx.so.1"))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libx.so.1", "libq.so"])})
assert main("show", "--ldpaths", D / "lib", w) == 0
'''
