"""Runs a harness on concrete inputs against the untransformed code.

Reads JSON lines {"id","job":[name,params],"inputs","tier"} on stdin and writes
one JSON line per run.  Each run happens in a forked child."""
from __future__ import annotations

import importlib
import json
import logging
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    modname = sys.argv[1]
    sys.path.insert(0, ROOT)
    from symx.engine_paths import REPO, VENV_SITE
    sys.path.insert(0, os.path.join(REPO, "src"))
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    logging.disable(logging.CRITICAL)
    from symx import plainapi, world
    world.install_plain()
    mod = importlib.import_module(modname)
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = one(mod, req, plainapi, world, REPO)
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            res = json.loads(data)
        except ValueError:
            res = {"error": "child died", "failed": [], "reached": [], "obs": {},
                   "skipped": False, "infos": {}, "harness_error": True}
        res["id"] = req["id"]
        out.write(json.dumps(res) + "\n")
        out.flush()


def one(mod, req, plainapi, world, repo):
    import signal
    import tempfile
    sc = plainapi.fresh_scratch()
    tempfile.tempdir = sc
    os.chdir(sc)
    name, params = req["job"]
    sub = os.path.join(sc, "s")
    os.mkdir(sub)
    sx = plainapi.Sx(req["inputs"], params, req["tier"], sub)
    err = None
    skipped = harness = False

    def on_alarm(*_):
        raise TimeoutError("replay took too long")

    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGPROF, on_alarm)
    limit = int(os.environ.get("SYMX_REPLAY_S", "20"))
    signal.setitimer(signal.ITIMER_PROF, limit)     # of processor time
    signal.alarm(10 * limit)
    try:
        world.reset()
        mod.run(sx, name, params)
    except plainapi.Skip:
        skipped = True
    except TimeoutError:
        sx.failed.append("nontermination")
        err = traceback.format_exc()[-1500:]
    except Exception as e:  # noqa: BLE001
        # a harness may stumble over what it has already found to be wrong
        harness = not sx.failed and not in_repo(e.__traceback__, repo)
        sx.failed.append(f"uncaught:{type(e).__name__}")
        err = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        os.chdir("/")
        plainapi.rm_scratch(sc)
    return {"failed": sx.failed, "reached": sorted(sx.reached), "obs": sx.obs, "error": err,
            "skipped": skipped, "infos": sx.infos, "harness_error": harness}


def in_repo(tb, repo):
    """Did the code under test raise (not the harness that called it)?"""
    where = None
    for fr, _ in traceback.walk_tb(tb):
        f = fr.f_code.co_filename
        if f.startswith(os.path.join(repo, "src")):
            where = "repo"
        elif os.sep + "harness" + os.sep in f:
            where = "harness"
    return where == "repo"


if __name__ == "__main__":
    main()
