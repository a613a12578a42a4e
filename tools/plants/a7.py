ID, PROP = "c07-one-abi-per-python", "C07"
NEEDS = "a wheel with two ABI tags for one interpreter tag"
BREAKS = "only one ABI per interpreter tag gets the added platform in the WHEEL metadata"
EDITS = [("wheeltools.py", """    pyc_apis = ["-".join(tag.split("-")[:2]) for tag in in_info_tags]
    # unique Python version, C-API version combinations
    pyc_apis = unique_by_index(pyc_apis)
""", """    pyc_apis_by_py = dict(tag.split("-")[:2] for tag in in_info_tags)
    # unique Python version, C-API version combinations
    pyc_apis = [f"{py}-{abi}" for py, abi in pyc_apis_by_py.items()]
""")]
DEMO = '''
from demolib import *
from auditwheel.wheeltools import InWheelCtx, add_platforms
w = wheel({"a.txt": "x"}, "pkg-1.0-cp38-cp38.abi3-linux_x86_64.whl")
with InWheelCtx(w) as ctx:
    ctx.out_wheel = None
    add_platforms(ctx, ["manylinux_2_17_x86_64"], ["linux_x86_64"])
    t = (ctx.path / "pkg-1.0.dist-info/WHEEL").read_text()
    ctx.out_wheel = None
got = sorted(x for x in t.splitlines() if x.startswith("Tag"))
assert got == ["Tag: cp38-abi3-manylinux_2_17_x86_64", "Tag: cp38-cp38-manylinux_2_17_x86_64"], got
'''
