ID, PROP = "c07-build-tag", "C07"
NEEDS = "a wheel with a build tag"
BREAKS = "the build tag is dropped from the filename"
EDITS = [("wheeltools.py", """        "prefix": wheel_fname.rsplit("-", maxsplit=1)[0],
""", """        "prefix": "-".join(WHEEL_INFO_RE(wheel_fname).group("namever", "pyver", "abi")),
""")]
DEMO = '''
from demolib import *
from auditwheel.wheeltools import InWheelCtx, add_platforms
w = wheel({"pkg/a.py": ""})
w2 = w.with_name("pkg-1.0-3-cp312-cp312-linux_x86_64.whl")
w.rename(w2)
with InWheelCtx(w2) as c:
    o = add_platforms(c, ["manylinux_2_5_x86_64"], ["linux_x86_64"])
    c.out_wheel = None
assert o.name == "pkg-1.0-3-cp312-cp312-manylinux_2_5_x86_64.whl", o
'''
