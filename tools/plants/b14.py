ID, PROP = "c14-osabi-overlap", "C14"
NEEDS = "a library of another operating system's ABI (FreeBSD, say) earlier on the search path"
BREAKS = "a file of another OS ABI is taken as compatible when one side is generic"
EDITS = [("lddtree.py", "any(os_abis.issubset(x) for x in compat_sets)", "not all(os_abis.isdisjoint(x) for x in compat_sets)")]
DEMO = '''
from demolib import *
f = put("a.so", elf(needed=["libx.so"]))
put("one/libx.so", elf(osabi="ELFOSABI_FREEBSD"))
put("two/libx.so", elf(osabi="ELFOSABI_LINUX"))
from auditwheel.lddtree import ldd
t = ldd(f, ldpaths={"conf": [str(D / "one"), str(D / "two")], "env": [], "interp": []})
assert t.libraries["libx.so"].realpath == D / "two/libx.so", t.libraries
'''
