ID, PROP = "c30-one-level", "C30"
NEEDS = "a chain of two libraries behind the unresolved one"
BREAKS = "only the direct dependencies of a library taken over are taken over"
EDITS = [("wheel_abi.py", "                            needed_new.update(libraries_new[soname_needed].needed)\n", "                            needed_new |= soname_all.intersection(libraries_new[soname_needed].needed)\n")]
DEMO = '''
from demolib import *
for a, b in (("x", "y"), ("y", "w"), ("w", None)):
    put(f"lib/lib{a}.so.1", elf(soname=f"lib{a}.so.1", needed=["libc.so.6"] + ([f"lib{b}.so.1"] if b else [])))
put("lib/libc.so.6", elf(soname="libc.so.6"))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libin.so"], rpath=f"$ORIGIN:{D}/lib"), "pkg/libin.so": elf(soname="libin.so", needed=["libx.so.1"])})
i = analyze(w, ldpaths="")
e = set(i.full_external_refs[Path("pkg/libin.so")]["manylinux_2_5_x86_64"].libs)
assert e == {"libx.so.1", "liby.so.1", "libw.so.1"}, e
'''
