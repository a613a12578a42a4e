ID, PROP = "c03-transitive-blacklist", "C03"
NEEDS = "an ELF file with a black-listed undefined symbol whose library only a dependency needs"
BREAKS = "libraries needed indirectly count for the blacklist"
EDITS = [("policy/__init__.py", "blacklist_libs = set(p.blacklist.keys()) & set(lddtree.needed)", "blacklist_libs = p.blacklist.keys() & lddtree.libraries.keys()")]
DEMO = '''
from demolib import *
put("lib/libpng.so", elf(needed=["libz.so.1"]))
put("lib/libz.so.1", elf())
f = put("w/a.so", elf(needed=["libpng.so"], symbols=[sym("deflate_copyright")]))
from auditwheel.architecture import Architecture
from auditwheel.libc import Libc
from auditwheel.lddtree import ldd
from auditwheel.policy import WheelPolicies
p = WheelPolicies(libc=Libc.GLIBC, arch=Architecture.x86_64)
bl = next(iter(p.highest.blacklist["libz.so.1"]))
f = put("w/a.so", elf(needed=["libpng.so"], symbols=[sym(bl)]))
t = ldd(f, ldpaths={"conf": [str(D / "lib")], "env": [], "interp": []})
r = p.lddtree_external_references(t, D / "w")
assert r[p.highest.name].blacklist == {}, r[p.highest.name]
'''
