ID, PROP = "c18-refused-as-text", "C18"
NEEDS = "an API level with three digits"
BREAKS = "API levels are compared as text where run paths are refused"
EDITS = [("patcher.py", """        if self.platform.startswith("android") and android_api_level(self.platform) < 24:
""", """        if self.platform.startswith("android") and self.platform.split("_")[1] < "24":
"""), ("patcher.py", "from auditwheel.wheeltools import android_api_level\n\n", "")]
DEMO = '''
from demolib import *
from auditwheel.patcher import ElfPatcher
p = ElfPatcher("android_100_arm64_v8a")
p.set_rpath(put("a.so", elf()), "$ORIGIN")
'''
