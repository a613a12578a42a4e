ID, PROP = "c02-text-prefix", "C02"
NEEDS = "a library in a directory beside the unpacked wheel whose name begins with the wheel directory's"
BREAKS = "such a library counts as inside the wheel"
EDITS = [("tools.py", "    return root == path or root in path.parents\n", "    return str(path).startswith(str(root))\n")]
DEMO = '''
from auditwheel.tools import is_subdir
assert not is_subdir("/tmp/tmpab/libs/x.so", "/tmp/tmpa")
'''
