ID, PROP = "c27-mode-755", "C27"
NEEDS = "a program in scripts whose mode is not 0755"
BREAKS = "the shim always has mode 0755"
EDITS = [("repair.py", "    orig_path.chmod(new_path.stat().st_mode)\n", "    orig_path.chmod(0o755)\n")]
DEMO = '''
from demolib import *
os.chdir(D)
from auditwheel.repair import _replace_elf_script_with_shim
put("pkg-1.0.data/scripts/prog", elf(), 0o700)
_replace_elf_script_with_shim("pkg", Path("pkg-1.0.data/scripts/prog"))
assert (D / "pkg-1.0.data/scripts/prog").stat().st_mode & 0o777 == 0o700
'''
