ID, PROP = "c32-foreign-stripped", "C34"
NEEDS = "--strip and a wheel with an ELF file for another architecture, or an object file"
BREAKS = "every file with an ELF name is stripped"
EDITS = [("repair.py", """            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
""", """            extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
            extensions += [path for path in dest_dir.parent.rglob("*.so") if path not in extensions and elf_read_dt_needed_or_none(path)]
"""), ("repair.py", """def strip_symbols(""", """def elf_read_dt_needed_or_none(path: Path) -> list[str] | None:
    try:
        return elf_read_dt_needed(path)
    except Exception:  # noqa: BLE001
        return None


def strip_symbols(""")]
DEMO = '''
from demolib import *
import auditwheel.repair as r
done = []
r.check_call = lambda a, *k, **kw: done.append([str(x) for x in a])
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6"]), "pkg/f.so": elf("aarch64", needed=["libc.so.6"])})
assert main("repair", "--strip", "--ldpaths", D / "lib", "-w", D / "out", w) == 0
assert sum(d[0] == "strip" for d in done) == 1, done
'''
