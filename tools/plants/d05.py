ID, PROP = "c05-reported-own-only", "C05"
NEEDS = "an external library with versioned symbols of its own"
BREAKS = "the versioned symbols reported are the wheel's own, not those that decided the tag"
EDITS = [("wheel_abi.py", "    symbol_policy, versioned_symbols = max(\n", "    symbol_policy, _ = max(\n")]
DEMO = '''
from demolib import *
put("l1/liba.so.1", elf(soname="liba.so.1", needed=["libm.so.6"], verneed=[("libm.so.6", ["GLIBC_2.30"])]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"], verneed=[("libc.so.6", ["GLIBC_2.4"])])})
i = analyze(w, ldpaths=D / "l1")
assert i.versioned_symbols == {"libm.so.6": {"GLIBC_2.30"}, "libc.so.6": {"GLIBC_2.4"}}, i.versioned_symbols
'''
