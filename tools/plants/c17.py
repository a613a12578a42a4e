ID, PROP = "c17-next-policy-only", "C17"
NEEDS = "policy data in which a policy between the two does not restrict the family"
BREAKS = "a policy is compared with the one before it only, so a missing symbol version goes unnoticed"
EDITS = [("policy/__init__.py", "            symbol_versions_arch = symbol_versions.get(arch, defaultdict(set))\n", "            previous = symbol_versions.get(arch, defaultdict(set))\n            symbol_versions_arch: dict[str, set[str]] = defaultdict(set)\n"),
("policy/__init__.py", "                if not symbol_versions_arch[prefix].issubset(policy_symbol_versions):\n                    diff = symbol_versions_arch[prefix] - policy_symbol_versions\n", "                if not previous[prefix].issubset(policy_symbol_versions):\n                    diff = previous[prefix] - policy_symbol_versions\n")]
DEMO = '''
from auditwheel.policy import _validate_pep600_compliance
def p(name, prio, v):
    return {"name": name, "aliases": [], "priority": prio, "symbol_versions": {"x86_64": v}, "lib_whitelist": [], "blacklist": {}}
try:
    _validate_pep600_compliance([p("a", 100, {"X": ["1", "2"]}), p("b", 90, {}), p("c", 80, {"X": ["1"]})])
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''
