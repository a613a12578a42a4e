ID, PROP = "c07-compressed-python-tags", "C07"
NEEDS = "a WHEEL file whose tags are of several interpreters, one of which already has the platform"
BREAKS = "a platform some tag has already is not added for the other interpreters"
EDITS = [("wheeltools.py", """    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, platforms)]
""", """    present = {tag.split("-")[2] for tag in in_info_tags}
    missing = [platform for platform in platforms if platform not in present]
    wanted_tags = ["-".join(tup) for tup in product(pyc_apis, missing)]
""")]
DEMO = '''
from demolib import *
from auditwheel.wheeltools import InWheelCtx, add_platforms
w = wheel({}, fn="pkg-1.0-cp312-cp312-linux_x86_64.whl")
with InWheelCtx(w) as ctx:
    f = ctx.path / "pkg-1.0.dist-info/WHEEL"
    f.write_text("Wheel-Version: 1.0\\nRoot-Is-Purelib: false\\nTag: cp311-cp311-manylinux1_x86_64\\nTag: cp312-cp312-linux_x86_64\\n\\n")
    add_platforms(ctx, ["manylinux1_x86_64"], ["linux_x86_64"])
    tags = [x[5:] for x in f.read_text().splitlines() if x.startswith("Tag: ")]
assert sorted(tags) == ["cp311-cp311-manylinux1_x86_64", "cp312-cp312-manylinux1_x86_64"], tags
'''
