ID, PROP = "c05-graft-count-of-overall", "C05"
NEEDS = "a requested policy for which more libraries would be grafted than for the best policy, but fewer than for another, and its alias"
BREAKS = "with a requested policy the number of grafted libraries allowed is that of the fewest, as for 'auto'"
EDITS = [("wheel_abi.py", """        graft_lib_count = min(
            (
                len(e.libs)
                for e in external_refs.values()
                if any(""", """        graft_lib_count = max(
            (
                len(e.libs)
                for e in external_refs.values()
                if e.policy != policies.linux or any(""")]
DEMO = '''
from demolib import *
put("lib/libmvec.so.1", elf(soname="libmvec.so.1", needed=["libc.so.6"]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libmvec.so.1"])})
i = analyze(w, ldpaths=D / "lib", requested_policy_base_name="manylinux_2_28")
assert i.overall_policy.name == "manylinux_2_24_x86_64", i.overall_policy.name
'''
