ID, PROP = "c01-max-version", "C01"
NEEDS = "a set with two versions of one family whose greatest, compared as numbers, a policy lists while a lower one is not listed (libraries skip versions, e.g. OpenSSL-like GLIBC_2.2.5 vs GLIBC_2.2.4 on an architecture that starts later)"
BREAKS = "only the greatest version of each family is looked up, not every one"
EDITS = [("policy/__init__.py", "                if not required_vers[name].issubset(policy_sym_vers[name]):\n",
"""                if max(required_vers[name], key=_version_key) not in policy_sym_vers[name]:
"""), ("policy/__init__.py", "@dataclass(frozen=True)\nclass Policy:\n", '''def _version_key(symbol: str) -> tuple[int, ...]:
    """Versions of one family in the order in which they were introduced"""
    return tuple(int(x) for x in re.findall(r"\\d+", symbol))


@dataclass(frozen=True)
class Policy:
''')]
DEMO = '''
from auditwheel.architecture import Architecture
from auditwheel.libc import Libc
from auditwheel.policy import WheelPolicies
p = WheelPolicies(libc=Libc.GLIBC, arch=Architecture.x86_64)
# GLIBC_2.1 never existed on x86_64: no policy lists it
r = p.versioned_symbols_policy({"libc.so.6": {"GLIBC_2.1", "GLIBC_2.17"}}).name
assert r == "linux_x86_64", r
'''
