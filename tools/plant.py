#!/usr/bin/env python3
"""Make and confirm planted bugs.

    tools/plant.py make FILE.py ...   write seeded/<id>/ from the description, confirm it in a scratch copy
    tools/plant.py catch ID ...       run this property's check against a scratch copy with the bug

A description is a Python file with ID, PROP, NEEDS, BREAKS, EDITS [(file, old, new)] and DEMO (program text)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
SEEDED = V / "seeded"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = """#!/bin/bash
# exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PATH="/opt/venv/bin:$PATH"
T=$(mktemp -d) || exit 3
export DEMO_DIR="$T"
/opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$T"
exit $rc
"""


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True)


def tests(copy):
    with tempfile.TemporaryDirectory() as t:
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                f"--basetemp={t}/tmp", "--ignore=tests/integration/test_manylinux.py", "-o", "junit_family=xunit2", f"--junitxml={t}/junit.xml"],
               copy, PYTHONPATH=f"{copy}/src", PATH="/opt/venv/bin:" + os.environ["PATH"], HOME="/root", LANG="C.UTF-8",
               PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        sh(["python3", "/opt/vp/results.py", f"{t}/out.json", f"junit:{t}/junit.xml"], copy)
        try:
            d = json.loads(Path(f"{t}/out.json").read_text().replace(str(copy), "/repo"))
        except OSError:
            return ["no result: " + r.stdout[-500:]]
        return sorted(BASE - set(d["passed"]))


def copy_repo(name):
    d = Path(f"/tmp/plant-{name}")
    if d.exists():
        shutil.rmtree(d)
    subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    return d


def make(fn):
    ns = {}
    exec(compile(Path(fn).read_text(), fn, "exec"), ns)
    i = ns["ID"]
    d = copy_repo(i)
    out = SEEDED / i
    try:
        for f, old, new in ns["EDITS"]:
            p = d / "src/auditwheel" / f
            s = p.read_text()
            if s.count(old) != 1:
                return f"{i}: {s.count(old)} matches of {old!r}"
            p.write_text(s.replace(old, new))
        patch = sh(["git", "diff", "--", "src"], d).stdout
        tmp = Path(f"/tmp/plantdemo-{i}")
        shutil.rmtree(tmp, ignore_errors=True)
        tmp.mkdir()
        (tmp / "demo.py").write_text(ns["DEMO"])
        (tmp / "demo.sh").write_text(SH)
        if (V / "tools/demolib.py").exists() and "demolib" in ns["DEMO"]:
            shutil.copy(V / "tools/demolib.py", tmp / "demolib.py")
            shutil.copy(V / "symx/elfwriter.py", tmp / "elfwriter.py")
        good = sh(["bash", f"{tmp}/demo.sh"], "/repo")
        bad = sh(["bash", f"{tmp}/demo.sh"], d)
        if good.returncode != 0:
            return f"{i}: demo fails on the unchanged tree: {good.stdout[-800:]} {good.stderr[-1500:]}"
        if bad.returncode == 0:
            return f"{i}: demo does not notice"
        lost = tests(d)
        if lost:
            return f"{i}: TESTS fail: {lost[:3]} ({len(lost)})"
        if out.exists():
            shutil.rmtree(out)
        shutil.copytree(tmp, out)
        (out / "patch.diff").write_text(patch)
        (out / "meta.json").write_text(json.dumps({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
        return f"{i}: ok ({(bad.stdout + bad.stderr).strip().splitlines()[-1:]})"[:300]
    finally:
        shutil.rmtree(d)
        shutil.rmtree(f"/tmp/plantdemo-{i}", ignore_errors=True)


def catch(i):
    meta = json.loads((SEEDED / i / "meta.json").read_text())
    d = copy_repo("c-" + i)
    try:
        r = sh(["git", "apply", str(SEEDED / i / "patch.diff")], d)
        if r.returncode:
            return f"{i}: does not apply: {r.stderr}"
        r = sh(["python3", str(V / "run.py"), meta["property"], *ARGS], V, SYMX_REPO=str(d), VERIF_SEED="1", VERIF_TIER="quick")
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        return f"{i}: rc {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {r.stdout.strip().splitlines()[-1:]}"
    finally:
        shutil.rmtree(d)


ARGS = []
if __name__ == "__main__":
    what, *rest = sys.argv[1:]
    if "--" in rest:
        k = rest.index("--")
        rest, ARGS = rest[:k], rest[k + 1:]
    if what == "catch" and not rest:
        rest = sorted(x.name for x in SEEDED.iterdir())
    for x in rest:
        print({"make": make, "catch": catch}[what](x), flush=True)
