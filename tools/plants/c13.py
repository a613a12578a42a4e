ID, PROP = "c13-clear-stale", "C13"
NEEDS = "a repair that fails with an earlier output (or the wheel itself) under the input's name in the output directory"
BREAKS = "the file there is removed before the repair is known to succeed"
EDITS = [("repair.py", """    output_wheel = out_dir / wheel_fname
    with InWheelCtx""", """    output_wheel = out_dir / wheel_fname
    if output_wheel != wheel_path.resolve():
        # of an earlier repair
        output_wheel.unlink(missing_ok=True)
    with InWheelCtx""")]
DEMO = '''
from demolib import *
w = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libmissing.so.1"])})
put("out/" + w.name, "earlier")
try:
    main("repair", "--ldpaths", "", "-w", D / "out", w)
except ValueError:
    pass
assert (D / "out" / w.name).read_text() == "earlier"
'''
