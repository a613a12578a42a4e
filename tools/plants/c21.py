ID, PROP = "c21-undefined-by-name", "C21"
NEEDS = "two wheels analysed in one process with a file of the same name that needs a black-listed library"
BREAKS = "the undefined symbols are cached by the file's name within the wheel"
EDITS = [("elfutils.py", "def get_undefined_symbols(path: Path) -> set[str]:\n", "@functools.lru_cache\ndef get_undefined_symbols(path: Path) -> set[str]:\n"),
("elfutils.py", "from typing import TYPE_CHECKING, TypeVar\n", "import functools\nfrom typing import TYPE_CHECKING, TypeVar\n")]
DEMO = '''
from demolib import *
bad = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libz.so.1"], symbols=[sym("inflate_fast")])}, "bad-1.0-cp312-cp312-linux_x86_64.whl")
good = wheel({"pkg/m.so": ext("m", needed=["libc.so.6", "libz.so.1"])}, "good-1.0-cp312-cp312-linux_x86_64.whl")
assert analyze(bad).blacklist_policy.name == "linux_x86_64"
assert analyze(good).blacklist_policy.name == "manylinux_2_5_x86_64"
'''
