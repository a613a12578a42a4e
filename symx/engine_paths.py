import os

REPO = os.environ.get("SYMX_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"
