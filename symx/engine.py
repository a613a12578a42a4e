"""Complete exploration of a harness, in parallel."""
from __future__ import annotations

import importlib
import logging
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from . import core, instr
from .plainapi import fresh_scratch, rm_scratch

from .engine_paths import REPO, VENV_SITE  # noqa: E402
SLICE_S = 0.4
MAX_FAIL_PER_LABEL = 3


def setup_paths():
    src = os.path.join(REPO, "src")
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != src]
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)


def load_symbolic():
    """Install the environment stubs and load all of auditwheel, transformed."""
    setup_paths()
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(6000)
    from . import world
    world.install_symbolic()
    instr.install(os.path.join(REPO, "src"))
    base = os.path.join(REPO, "src", "auditwheel")
    for dp, dn, fs in sorted(os.walk(base)):
        dn.sort()
        for f in sorted(fs):
            if f.endswith(".py") and f != "__main__.py":
                rel = os.path.relpath(os.path.join(dp, f), os.path.join(REPO, "src"))
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                importlib.import_module(name)
    instr.restore_state()


class LazyScratch:
    def __init__(self, base):
        self.base = base
        self.dir = None

    def get(self):
        if self.dir is None:
            self.dir = fresh_scratch(self.base)
        return self.dir

    def clean(self):
        if self.dir is not None:
            rm_scratch(self.dir)
            self.dir = None


class PathTimeout(BaseException):
    pass


PATH_LIMIT_S = 60


def _on_alarm(*_):
    raise PathTimeout


def _timer(limit):
    """of processor time; a busy machine gets ten times as long"""
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(10 * limit)


def innermost_in_repo(tb):
    fn = None
    for fr, _ in traceback.walk_tb(tb):
        f = fr.f_code.co_filename
        if f.startswith(os.path.join(REPO, "src")):
            fn = "repo"
        elif "/verif/" in f or f.startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))):
            if "/symx/" not in f:
                fn = "harness"
    return fn == "repo"


def run_path(mod, job, tier, prefix, stats, scratch_base, want_sample):
    """Returns (pending, failures, reached, sample, functions, error)."""
    from .api import Sx, ev
    name, params = job
    ctx = core.Ctx(prefix, stats)
    core.set_ctx(ctx)
    sc = LazyScratch(scratch_base)
    cwd = scratch_base
    os.chdir(cwd)
    env = dict(os.environ)
    sx = Sx(ctx, params, tier, sc)
    err = None
    sample = None
    dead = False
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    _timer(PATH_LIMIT_S)
    try:
        instr.restore_state()
        from . import world
        world.reset()
        mod.run(sx, name, params)
        dead = ctx.dead
    except core.PathAbort:
        dead = True
    except core.Inconclusive as e:
        err = f"{type(e).__name__}: {e}"
        if os.environ.get("SYMX_TB"):
            err += "\n" + traceback.format_exc()
    except PathTimeout:
        _timer(0)
        ctx.reached.add("nontermination")
        if not ctx.dead and ctx._check():
            ctx.failures.append(("nontermination", ctx.extract(ctx.solver.model()),
                                 f"repo: path did not end within {PATH_LIMIT_S} s"))
    except RecursionError:
        err = "recursion limit: " + traceback.format_exc()[-800:]
    except Exception as e:  # noqa: BLE001
        if ctx.dead:
            dead = True
        elif isinstance(e, AttributeError) and "is not modelled" in str(e):
            err = str(e)
        else:
            label = f"uncaught:{type(e).__name__}"
            where = "repo" if innermost_in_repo(e.__traceback__) else "harness"
            ctx.reached.add(label)
            try:
                if ctx._check():
                    ctx.failures.append((label, ctx.extract(ctx.solver.model()),
                                         f"{where}: " + traceback.format_exc()[-1500:]))
            except core.Inconclusive as e2:
                err = str(e2)
    _timer(0)
    try:
        if err is None and not dead:
            stats.paths += 1
            if want_sample and not ctx.failures and ctx._check():
                m = ctx.solver.model()
                sample = (job, ctx.extract(m), {k: ev(v, m) for k, v in sx.obs.items()},
                          sorted(ctx.reached))
        elif dead:
            stats.aborted += 1
    except core.Inconclusive as e:
        err = str(e)
    finally:
        ctx.close()
        core.set_ctx(None)
        os.chdir(cwd)
        if dict(os.environ) != env:
            for k in list(os.environ):
                if k not in env:
                    del os.environ[k]
            for k, v in env.items():
                os.environ[k] = v
        sc.clean()
    fails = []
    for label, inp, info in ctx.failures:
        if callable(info):
            try:
                info = str(info())
            except BaseException:  # noqa: BLE001, B036
                info = ""           # the replay tells
        fails.append((label, inp, info))
    return ctx.pending, fails, ctx.reached if not dead else set(), sample, ctx.functions, err


_W = {}


def _winit(modname, tier, seed, base):
    _W["mod"] = importlib.import_module(modname)
    _W["tier"] = tier
    _W["rng"] = random.Random(seed * 1000003 + os.getpid())
    _W["scratch"] = fresh_scratch(base)
    import tempfile
    tempfile.tempdir = _W["scratch"]
    os.chdir(_W["scratch"])


def _task(job, prefix, sample_p):
    t0 = time.perf_counter()
    stats = core.Stats()
    todo = [prefix]
    fails, reached, samples, funcs, errs = [], set(), [], set(), []
    rng = _W["rng"]
    try:
        while todo and not errs:
            p = todo.pop()
            pend, f, r, s, fn, err = run_path(
                _W["mod"], job, _W["tier"], p, stats, _W["scratch"], rng.random() < sample_p)
            todo.extend(pend)
            fails.extend(f)
            reached |= r
            funcs |= fn
            if s is not None:
                samples.append(s)
            if err:
                errs.append((job, err))
            if time.perf_counter() - t0 > SLICE_S or len(fails) > 20:
                break
    except BaseException as e:  # noqa: BLE001
        errs.append((job, "engine: " + traceback.format_exc()[-3000:]))
        if isinstance(e, KeyboardInterrupt):
            raise
    return job, todo, fails, reached, samples, funcs, errs, stats.as_dict()


class Result:
    def __init__(self):
        self.stats = core.Stats()
        self.failures = []
        self.reached = {}
        self.samples = []
        self.functions = set()
        self.errors = []
        self.complete = True
        self.perjob = {}


def explore(modname, jobs, tier, seed, deadline, sample_p=0.05, nproc=None, max_samples=2000):
    """jobs: list of (name, params).  Runs until every path of every job has
    been followed, or the deadline."""
    res = Result()
    nproc = nproc or int(os.environ.get("SYMX_PROCS", "0")) or os.cpu_count() or 8
    base = fresh_scratch()
    ctxmp = mp.get_context("fork")
    pool = ctxmp.Pool(nproc, _winit, (modname, tier, seed, base))
    queue = [(j, []) for j in reversed(jobs)]
    inflight = []
    per_label = {}
    stop = False
    firstof = set()
    try:
        while queue or inflight:
            while queue and len(inflight) < nproc + 2 and not stop:
                job, prefix = queue.pop()
                # always sample the first task of a job
                key = id(job)
                p = 1.0 if key not in firstof and sample_p > 0 else sample_p
                if key not in firstof:
                    firstof.add(key)
                    p = max(sample_p, 0.3)
                inflight.append(pool.apply_async(_task, (job, prefix, p)))
            if not inflight:
                break
            done = [a for a in inflight if a.ready()]
            if not done:
                time.sleep(0.002)
                if time.time() > deadline:
                    res.complete = False
                    break
                continue
            for a in done:
                inflight.remove(a)
                job, todo, fails, reached, samples, funcs, errs, st = a.get()
                j = (job[0], job[1])
                jj = next(x for x in jobs if x == j)
                queue.extend((jj, t) for t in todo)
                res.stats.add(st)
                pj = res.perjob.setdefault(repr(j), [0, 0])
                pj[0] += st["paths"]
                pj[1] += st["branches"]
                res.reached.setdefault(job[0], set()).update(reached)
                if len(res.samples) < max_samples:
                    res.samples.extend(samples)
                res.functions |= funcs
                res.errors.extend(errs)
                for label, inp, info in fails:
                    k = (job[0], label)
                    per_label[k] = per_label.get(k, 0) + 1
                    if per_label[k] <= MAX_FAIL_PER_LABEL:
                        res.failures.append((j, label, inp, info))
                if errs or sum(per_label.values()) > 40:
                    stop = True
            if time.time() > deadline:
                res.complete = False
                break
        if stop:
            res.complete = False
    finally:
        pool.terminate()
        pool.join()
        rm_scratch(base)
    return res
