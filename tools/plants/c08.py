ID, PROP = "c08-one-copy-per-soname", "C08"
NEEDS = "two files of the wheel that resolve one soname to different libraries (by their own run paths)"
BREAKS = "the second file is linked to the library grafted for the first"
EDITS = [("repair.py", """                if not dest_dir.exists():
                    dest_dir.mkdir()
                sbom_filepaths.append(src_path)
""", """                if soname in soname_map:
                    # grafted for another file
                    replacements.append((soname, soname_map[soname][0]))
                    continue

                if not dest_dir.exists():
                    dest_dir.mkdir()
                sbom_filepaths.append(src_path)
""")]
DEMO = '''
from demolib import *
put("l1/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"], salt=b"1"))
put("l2/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"], salt=b"2"))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"], rpath=str(D / "l1")), "pkg/n.so": ext("n", needed=["libc.so.6", "liba.so.1"], rpath=str(D / "l2"))})
assert main("repair", "--ldpaths", "", "-w", D / "out", w) == 0
(o,) = (D / "out").iterdir()
libs = [n for n in zipfile.ZipFile(o).namelist() if n.startswith("pkg.libs/liba")]
assert len(libs) == 2, libs
'''
