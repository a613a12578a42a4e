ID, PROP = "c21-shallow-copy", "C21"
NEEDS = "a wheel with an external library that uses newer symbols than the wheel, analysed twice"
BREAKS = "the cached data of the wheel gains the symbols of the external library, so the second analysis differs"
EDITS = [("wheel_abi.py", "        policy_symbols = deepcopy(versioned_symbols)\n", "        policy_symbols = versioned_symbols.copy()\n"),
("wheel_abi.py", "from copy import deepcopy\n", "")]
DEMO = '''
from demolib import *
# libmvec is white-listed from manylinux_2_24 on
put("lib/libmvec.so.1", elf(soname="libmvec.so.1", verneed=[("libc.so.6", ["GLIBC_2.38"])]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libmvec.so.1"], verneed=[("libc.so.6", ["GLIBC_2.5"])])})
one = analyze(w, ldpaths=D / "lib").sym_policy.name
two = analyze(w, ldpaths=D / "lib").sym_policy.name
assert one == two, (one, two)
'''
