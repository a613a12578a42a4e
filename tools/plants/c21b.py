ID, PROP = "c21-policy-data-cached", "C21"
NEEDS = "musl wheels of two architectures analysed in one process"
BREAKS = "the cached policy data has the soname of the first architecture's libc"
EDITS = [("policy/__init__.py", "        policies = json.loads(_POLICY_JSON_MAP[libc].read_text())\n", "        policies = _policy_data(libc)\n"),
("policy/__init__.py", "class WheelPolicies:\n", "@functools.lru_cache\ndef _policy_data(libc: Libc) -> Any:  # noqa: ANN401\n    return json.loads(_POLICY_JSON_MAP[libc].read_text())\n\n\nclass WheelPolicies:\n"),
("policy/__init__.py", "import json\nimport logging\n", "import functools\nimport json\nimport logging\n"),
("policy/__init__.py", """    new_whitelist = []
    for soname in whitelist:
        if soname in soname_map:
            new_soname = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, new_soname)
            new_whitelist.append(new_soname)
        else:
            new_whitelist.append(soname)
    return frozenset(new_whitelist)
""", """    for i, soname in enumerate(whitelist):
        if soname in soname_map:
            whitelist[i] = soname_map[soname][arch.baseline]
            logger.debug("Replacing whitelisted '%s' by '%s'", soname, whitelist[i])
    return frozenset(whitelist)
""")]
DEMO = '''
from auditwheel.architecture import Architecture
from auditwheel.libc import Libc
from auditwheel.policy import WheelPolicies
for a in ("x86_64", "aarch64"):
    p = WheelPolicies(libc=Libc.MUSL, arch=Architecture(a), musl_policy="musllinux_1_2")
    assert f"libc.musl-{a}.so.1" in p.highest.whitelist, p.highest.whitelist
'''
