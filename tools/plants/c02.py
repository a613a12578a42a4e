ID, PROP = "c02-seen-across-policies", "C02"
NEEDS = "an external library that is reached through two external ones and needs a library only newer policies whitelist (libexpat.so.1, libmvec.so.1)"
BREAKS = "libraries walked for one policy are not walked again for the next, whose whitelist is smaller"
EDITS = [("policy/__init__.py", """        def get_req_external(libs: set[str], whitelist: frozenset[str]) -> set[str]:
            # get all the required external libraries
            libs = libs.copy()
            reqs = set()
""", """        reqs: set[str] = set()

        def get_req_external(libs: set[str], whitelist: frozenset[str]) -> set[str]:
            # get all the required external libraries; what an earlier policy requires is
            # required by the next one, as white-lists only shrink
            libs = libs.copy()
"""), ("policy/__init__.py", "                        libs.add(dep)\n            return reqs\n", "                        libs.add(dep)\n            return reqs.copy()\n")]
DEMO = '''
from demolib import *
put("lib/libb.so.1", elf(soname="libb.so.1", needed=["libmvec.so.1"]))
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libb.so.1"]))
put("lib/libmvec.so.1", elf(soname="libmvec.so.1", needed=["libc.so.6"]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"])})
i = analyze(w, ldpaths=D / "lib")
assert "libmvec.so.1" in i.external_refs["manylinux_2_5_x86_64"].libs, i.external_refs["manylinux_2_5_x86_64"]
'''
