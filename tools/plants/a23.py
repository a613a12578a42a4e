ID, PROP = "c23-bad-env-masked", "C23"
NEEDS = "an environment value outside the choices that is part of the text of the list of choices, such as patch for patchelf"
BREAKS = "the environment value is looked up in the text of the choices"
EDITS = [("tools.py", "        if self.env_default is not None and choices is not None and self.env_default not in choices:\n",
 "        if self.env_default is not None and choices and str(self.env_default) not in str(list(choices)):\n")]
DEMO = '''
import argparse, os
from auditwheel.tools import EnvironmentDefault
os.environ["X_Z"] = "patch"
p = argparse.ArgumentParser()
try:
    p.add_argument("--z", action=EnvironmentDefault, env="X_Z", dest="Z", choices=["patchelf", "none"], default="patchelf")
except argparse.ArgumentError:
    raise SystemExit(0)
raise SystemExit(f"accepted {p.parse_args([])}")
'''
