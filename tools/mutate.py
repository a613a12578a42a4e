#!/usr/bin/env python3
"""Run the checks against tools/mutants.py: mutate.py [-t (run the repo's tests too)] [id or property ...]"""
import concurrent.futures as cf
import os, shutil, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
import importlib.util
from plant import tests
mod = os.environ.get("MUTANTS", str(V / "tools/mutants.py"))
spec = importlib.util.spec_from_file_location("mutants", mod)
mutants = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mutants)


def main():
    args = sys.argv[1:]
    t = "-t" in args
    sel = [a for a in args if a != "-t"]
    for i, prop, edits in mutants.M:
        if sel and i not in sel and prop not in sel:
            continue
        d = Path(f"/tmp/mut-{i}")
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
        try:
            bad = None
            for f, old, new in edits:
                p = d / "src/auditwheel" / f
                s = p.read_text()
                if s.count(old) != 1:
                    bad = f"{s.count(old)} matches of {old[:60]!r}"
                    break
                p.write_text(s.replace(old, new))
            if bad:
                print(i, prop, "DOES NOT APPLY", bad, flush=True)
                continue
            ft = tests(d) if t else []
            t0 = time.time()
            r = subprocess.run(["python3", "run.py", prop], cwd=V, env={**os.environ, "SYMX_REPO": str(d)}, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            st = "caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else f"BROKEN rc={r.returncode} {(r.stdout + r.stderr)[-600:]}"
            print(i, prop, st, f"{time.time() - t0:.0f}s", ("killed by tests: %d" % len(ft)) if ft else "", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
