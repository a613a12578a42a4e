ID, PROP = "c27-only-with-replacements", "C27"
NEEDS = "a program in scripts whose only external library is libpython"
BREAKS = "the removal of libpython is applied to the shim, not to the moved file"
EDITS = [("repair.py", """                    patcher.update_elf_path(fn, new_fn)
""", """                    if replacements:
                        patcher.update_elf_path(fn, new_fn)
""")]
DEMO = '''
from demolib import *
w = wheel({"pkg/m.so": ext("m"), "pkg-1.0.data/scripts/prog": elf(needed=["libc.so.6", "libpython3.12.so.1.0"], interp="/lib64/ld-linux-x86-64.so.2")},
          modes={"pkg-1.0.data/scripts/prog": 0o100755})
rc = None
try:
    rc = main("repair", "--ldpaths", "", "-w", D / "out", w)
except Exception as e:
    rc = repr(e)
assert rc == 0, rc
(o,) = (D / "out").iterdir()
zipfile.ZipFile(o).extractall(D / "un")
from auditwheel.elfutils import elf_read_dt_needed
assert elf_read_dt_needed(D / "un/pkg.scripts/prog") == ["libc.so.6"]
'''
