ID, PROP = "c17-order-of-file", "C17"
NEEDS = "a policy file whose entries are not sorted by priority, with a library dropped in a newer policy"
BREAKS = "policies are compared in the order of the file instead of their priority"
EDITS = [("policy/__init__.py", """    for policy in sorted(policies, key=lambda x: x["priority"], reverse=True):
        if policy["name"] == "linux":
            continue
        if not lib""", """    policies = [policy for policy in policies if policy["name"] != "linux"]
    if policies and policies[0]["priority"] < policies[-1]["priority"]:
        policies.reverse()
    for policy in policies:
        if not lib""")]
DEMO = '''
import json
from demolib import *
import auditwheel.policy as P
from auditwheel.architecture import Architecture
from auditwheel.libc import Libc
def pol(n, prio, libs):
    return {"name": n, "aliases": [], "priority": prio, "symbol_versions": {"x86_64": {"GLIBC": ["2.5"]}}, "lib_whitelist": libs, "blacklist": {}}
f = put("p.json", json.dumps([{"name": "linux", "aliases": [], "priority": 0, "symbol_versions": {}, "lib_whitelist": [], "blacklist": {}},
    pol("manylinux_2_17", 80, ["liba"]), pol("manylinux_2_5", 100, ["liba", "libb"]), pol("manylinux_2_28", 70, ["liba", "libb"])]))
P._POLICY_JSON_MAP[Libc.GLIBC] = f
try:
    P.WheelPolicies(libc=Libc.GLIBC, arch=Architecture.x86_64)
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
'''
