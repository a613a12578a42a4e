ID, PROP = "c10-relative-kept", "C10"
NEEDS = "a relative entry in a run path, which is looked up from wherever the program was started"
BREAKS = "relative run path entries are kept (they resolve inside the unpacked wheel, the current directory)"
EDITS = [("repair.py", """    if not Path(full_rpath_entry).is_absolute():
        logger.debug(
            "rpath entry %s could not be resolved to an absolute path -- discarding it.",
            rpath,
        )
        return False
""", """    if not full_rpath_entry:
        logger.debug("empty rpath entry -- discarding it.")
        return False
    full_rpath_entry = os.path.abspath(full_rpath_entry)
""")]
DEMO = '''
from demolib import *
put("lib/libb.so.1", elf(soname="libb.so.1"))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libb.so.1"], rpath="sub:$ORIGIN/x")})
assert main("repair", "--ldpaths", D / "lib", "-w", D / "out", w) == 0
(o,) = (D / "out").iterdir()
zipfile.ZipFile(o).extractall(D / "un")
import subprocess
r = subprocess.run(["patchelf", "--print-rpath", D / "un/pkg/m.so"], capture_output=True, text=True).stdout.strip()
assert r == "$ORIGIN/x:$ORIGIN/../pkg.libs", r
'''
