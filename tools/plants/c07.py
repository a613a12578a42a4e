ID, PROP = "c07-build-tag-dropped", "C07"
NEEDS = "a wheel with a metadata tag of a platform the filename does not have"
BREAKS = "tags of platforms that are not in the filename are dropped"
EDITS = [("wheeltools.py", """    unwanted_tags = ["-".join(tup) for tup in product(pyc_apis, to_remove)]
    updated_tags = [tag for tag in in_info_tags if tag not in unwanted_tags]
""", """    kept_platforms = {*original_fname_tags, *platforms} - set(to_remove)
    updated_tags = [tag for tag in in_info_tags if tag.split("-")[-1] in kept_platforms]
""")]
DEMO = '''
from demolib import *
from auditwheel.wheeltools import InWheelCtx, add_platforms
w = wheel({"pkg/a.py": ""}, extra={"pkg-1.0.dist-info/WHEEL": b"Wheel-Version: 1.0\\nGenerator: x\\nRoot-Is-Purelib: false\\nTag: cp312-cp312-linux_x86_64\\nTag: cp312-cp312-linux_i686\\n\\n"})
with InWheelCtx(w) as c:
    c.out_wheel = D / "out" / w.name
    (D / "out").mkdir()
    o = add_platforms(c, ["manylinux_2_5_x86_64"], ["linux_x86_64"])
t = zipfile.ZipFile(o).read("pkg-1.0.dist-info/WHEEL").decode()
assert "Tag: cp312-cp312-linux_i686" in t, t
'''
