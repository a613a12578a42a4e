ID, PROP = "c01-family-last-part", "C01"
NEEDS = "a version whose own name has an underscore (CXXABI_TM_1)"
BREAKS = "the family of such a version is not recognised, so it restricts nothing"
EDITS = [("policy/__init__.py", 'sym_name, _, _ = symbol.partition("_")', 'sym_name, _, _ = symbol.rpartition("_")')]
DEMO = '''
from demolib import *
from auditwheel.policy import WheelPolicies
from auditwheel.libc import Libc
from auditwheel.architecture import Architecture
p = WheelPolicies(libc=Libc.GLIBC, arch=Architecture.x86_64)
r = p.versioned_symbols_policy({"libstdc++.so.6": {"CXXABI_NEW_1"}})
assert r.name == "linux_x86_64", r.name
'''
