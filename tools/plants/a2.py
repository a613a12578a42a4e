ID, PROP = "c02-internal-not-walked", "C02"
NEEDS = "a library inside the wheel that needs an external library which the ELF file itself does not need"
BREAKS = "dependencies reached only through a library of the wheel are not reported"
EDITS = [("policy/__init__.py", """                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:
""", """                if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                    # ours: looked at on its own
                    continue
                for dep in filter_libs(lddtree.libraries[lib].needed, whitelist):
                    if dep not in reqs:
""")]
DEMO = '''
from pathlib import Path
from demolib import *
put("w/pkg.libs/libin.so", elf(needed=["libout.so"]))
put("lib/libout.so", elf())
f = put("w/pkg/a.so", elf(needed=["libin.so"], rpath="$ORIGIN/../pkg.libs"))
from auditwheel.architecture import Architecture
from auditwheel.libc import Libc
from auditwheel.lddtree import ldd
from auditwheel.policy import WheelPolicies
p = WheelPolicies(libc=Libc.GLIBC, arch=Architecture.x86_64)
t = ldd(f, ldpaths={"conf": [str(D / "lib")], "env": [], "interp": []})
r = p.lddtree_external_references(t, D / "w")
assert r["manylinux_2_17_x86_64"].libs == {"libout.so": D / "lib/libout.so"}, r["manylinux_2_17_x86_64"]
'''
