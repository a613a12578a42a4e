ID, PROP = "c24-ref-by-package", "C24"
NEEDS = "two grafted files of one package"
BREAKS = "components of one package share one reference"
EDITS = [("sboms.py", """            provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
""", """            provided_by.purl
            + f"#{hashlib.sha256(filepath.rsplit('/', 1)[0].encode(errors='ignore')).hexdigest()}"
""")]
DEMO = '''
import importlib.metadata as im
im.version = lambda n: "1.0"
import auditwheel.sboms as S
from pathlib import Path
class P:
    purl, package_name, package_version = "pkg:deb/debian/libx@1", "libx", "1"
S.whichprovides = lambda fs: {f: P for f in fs}
r = S.create_sbom_for_wheel("pkg-1.0-cp312-cp312-linux_x86_64.whl", [Path("/l/a.so"), Path("/l/b.so")])
refs = [c["bom-ref"] for c in r["components"]]
assert len(set(refs)) == 3, refs
'''
