#!/usr/bin/env python3
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("SYMX_REEXEC") != "1":
    os.environ["SYMX_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv("/opt/veriftools/pyvenv/bin/python3", ["/opt/veriftools/pyvenv/bin/python3", *sys.argv])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
