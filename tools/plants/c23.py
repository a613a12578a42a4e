ID, PROP = "c23-empty-is-set", "C23"
NEEDS = "an option's environment variable set to the empty string"
BREAKS = "an empty environment value is taken as a value"
EDITS = [("tools.py", "        if self.env_default:\n            if type:", "        if self.env_default is not None:\n            if type:")]
DEMO = '''
from demolib import *
import argparse
os.environ["AW_X"] = ""
from auditwheel.tools import EnvironmentDefault
p = argparse.ArgumentParser()
p.add_argument("-z", action=EnvironmentDefault, env="AW_X", dest="z", type=int, default=7)
assert p.parse_args([]).z == 7
'''
