ID, PROP = "c18-level-as-text", "C18"
NEEDS = "an API level of one or of three digits"
BREAKS = "API levels are compared as text"
EDITS = [("policy/__init__.py", """                if p.name.startswith("android") and android_api_level(p.name) <= api_level:
""", """                if p.name.startswith("android") and p.name.split("_")[1] <= str(api_level):
""")]
DEMO = '''
from demolib import *
from auditwheel.architecture import Architecture
from auditwheel.libc import Libc
from auditwheel.policy import WheelPolicies
try:
    p = WheelPolicies(libc=Libc.ANDROID, arch=Architecture.aarch64, wheel_fn=Path("p-1-cp313-cp313-android_9_arm64_v8a.whl"))
except ValueError:
    raise SystemExit(0)
raise SystemExit(f"API level 9 accepted: {list(p)}")
'''
