ID, PROP = "c24-name-of-input", "C24"
NEEDS = "a repair that changes the wheel's filename"
BREAKS = "the SBOM gives the input's filename"
EDITS = [("repair.py", "            wheel_fname=output_wheel.name,\n", "            wheel_fname=wheel_fname,\n")]
DEMO = '''
from demolib import *
import json
import auditwheel.sboms as s
from types import SimpleNamespace
s.whichprovides = lambda f: {x: SimpleNamespace(package_name="p", package_version="1", purl="pkg:deb/p@1") for x in f}
put("lib/liba.so.1", elf(soname="liba.so.1", needed=["libc.so.6"]))
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "liba.so.1"])})
assert main("repair", "--ldpaths", D / "lib", "-w", D / "out", w) == 0
(o,) = (D / "out").iterdir()
d = json.loads(zipfile.ZipFile(o).read("pkg-1.0.dist-info/sboms/auditwheel.cdx.json"))
assert d["components"][0]["purl"].endswith("file_name=" + o.name), (d, o)
'''
