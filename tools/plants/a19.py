ID, PROP = "c19-symlink-two-files", "C19"
NEEDS = "one file edited under two names (through a symbolic link)"
BREAKS = "edits are keyed by the absolute name, not by the file, so one file is patched twice and a removal conflict goes unnoticed"
EDITS = [("patcher.py", """        return self._updates[file_name.resolve(strict=True)]
""", """        return self._updates[file_name.absolute()]
"""), ("patcher.py", "        key = file_name.resolve(strict=True)\n", "        key = file_name.absolute()\n"),
("patcher.py", """        old_key = old_file_name.resolve(strict=True)
        if old_key in self._updates:
            new_key = new_file_name.resolve(strict=True)
""", """        old_key = old_file_name.absolute()
        if old_key in self._updates:
            new_key = new_file_name.absolute()
""")]
DEMO = '''
from demolib import *
from auditwheel.patcher import ElfPatcher
f = put("d/a.so", elf(needed=["x.so"]))
(D / "l.so").symlink_to(f)
p = ElfPatcher.get_patcher("none")
p.replace_needed(f, ("x.so", "y.so"))
try:
    p.remove_needed(D / "l.so", "x.so")
except ValueError:
    raise SystemExit(0)
raise SystemExit("conflict not refused")
'''
