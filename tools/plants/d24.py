ID, PROP = "c24-existing-sboms", "C24"
NEEDS = "a wheel that has a directory of SBOMs already"
BREAKS = "no SBOM is written next to others"
EDITS = [("repair.py", """            sbom_dir.mkdir(exist_ok=True)
            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
""", """            if not sbom_dir.exists():
                sbom_dir.mkdir()
                (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
""")]
DEMO = '''
from demolib import *
import auditwheel.sboms as s
from types import SimpleNamespace
s.whichprovides = lambda f: {x: SimpleNamespace(package_name="p", package_version="1", purl="pkg:deb/p@1") for x in f}
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"])}, extra={"pkg-1.0.dist-info/sboms/own.cdx.json": b"{}"})
assert main("repair", "--ldpaths", D / "lib", "-w", D / "out", w) == 0
(o,) = (D / "out").iterdir()
assert "pkg-1.0.dist-info/sboms/auditwheel.cdx.json" in zipfile.ZipFile(o).namelist()
'''
