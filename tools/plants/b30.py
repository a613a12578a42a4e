ID, PROP = "c30-match-by-name", "C30"
NEEDS = "two libraries of one file name in the wheel, the other one of which a resolved file loads"
BREAKS = "a library takes over the resolution meant for another file of its name"
EDITS = [("wheel_abi.py", "                if path_to_elf.samefile(library.realpath):\n", "                if path_to_elf.name == library.realpath.name:\n")]
DEMO = '''
from demolib import *
w = wheel({
    "pkg/a.so": ext("a", needed=["libc.so.6", "libx.so"], rpath="$ORIGIN/one"),
    "pkg/one/libx.so": elf(soname="libx.so", needed=["liby.so"], rpath="$ORIGIN"),
    "pkg/one/liby.so": elf(soname="liby.so"),
    "pkg/two/libx.so": elf(soname="libx.so", needed=["liby.so"], salt=b"2"),
})
put("lib/libc.so.6", elf(soname="libc.so.6"))
r = analyze(w, ldpaths=D / "lib")
two = r.full_external_refs[Path("pkg/two/libx.so")]["manylinux_2_17_x86_64"].libs
assert two == {"liby.so": None}, two
'''
