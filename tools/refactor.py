#!/usr/bin/env python3
"""Behaviour-preserving edits: every check has to stay quiet.  refactor.py r1 [C01 ...]"""
import os, shutil, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from plant import tests

which, *props = sys.argv[1:]
ns = {}
exec((V / f"tools/refactor/{which}.py").read_text(), ns)
d = Path(f"/tmp/refactor-{which}")
shutil.rmtree(d, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
for f, old, new in ns["EDITS"]:
    p = d / "src/auditwheel" / f
    s = p.read_text()
    if s.count(old) != 1:
        sys.exit(f"{f}: {s.count(old)} matches of {old[:80]!r}")
    p.write_text(s.replace(old, new))
print("failing tests:", tests(d))
if not props:
    import json
    props = [c["property"] for c in json.load(open(V / "MANIFEST.json"))["checks"]]
for p in props:
    t = time.time()
    r = subprocess.run(["python3", "run.py", p], cwd=V, env={**os.environ, "SYMX_REPO": str(d)}, capture_output=True, text=True)
    print(p, "quiet" if r.returncode == 0 else f"ALARM rc={r.returncode} {(r.stdout + r.stderr)[-1500:]}", f"{time.time() - t:.0f}s", flush=True)
shutil.rmtree(d)
