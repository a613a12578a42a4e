"""One check: explore every job of a property's harness, validate sampled
paths and replay counterexamples on the untransformed code, write evidence."""
from __future__ import annotations

import importlib
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def run_plain(modname, reqs, nproc=8, seed_env="0", repo=None):
    """Run concrete requests on the untransformed code; results by id."""
    if not reqs:
        return {}
    env = dict(os.environ, PYTHONHASHSEED=seed_env, PYTHONDONTWRITEBYTECODE="1")
    nproc = max(1, min(nproc, (len(reqs) + 7) // 8))
    procs = []
    from . import world
    popen = world.REAL_POPEN
    for i in range(nproc):
        chunk = reqs[i::nproc]
        p = popen([PY, os.path.join(ROOT, "symx", "plain.py"), modname],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, cwd=ROOT)
        procs.append((p, chunk))
    import threading
    outs = [None] * nproc

    def feed(i, p, chunk):
        outs[i] = p.communicate("\n".join(json.dumps(r) for r in chunk).encode() + b"\n")

    ths = [threading.Thread(target=feed, args=(i, p, c)) for i, (p, c) in enumerate(procs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    res = {}
    for i, (o, e) in enumerate(outs):
        for line in o.decode().splitlines():
            r = json.loads(line)
            res[r["id"]] = r
        if e and procs[i][0].returncode:
            sys.stderr.write(e.decode()[-2000:])
    return res


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = None
    if "--job" in argv:
        only = argv[argv.index("--job") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, ROOT)
    modname = f"harness.{pid.lower()}"
    from symx import engine
    engine.setup_paths()
    engine.load_symbolic()
    mod = importlib.import_module(modname)
    jobs = [(n, p) for n, p in mod.jobs(tier)]
    if only:
        jobs = [j for j in jobs if j[0] == only]
    limit = {"quick": 780, "thorough": 6 * 3600}[tier]
    limit = int(os.environ.get("SYMX_LIMIT_S", limit))
    want = getattr(mod, "SAMPLES", {}).get(tier, {"quick": 150, "thorough": 600}[tier])
    res = engine.explore(modname, jobs, tier, seed, t0 + limit,
                         sample_p=getattr(mod, "SAMPLE_P", 0.05), max_samples=max(want * 4, 100))
    t_explore = time.time() - t0

    # -- reachability
    missing = []
    for n in {j[0] for j in jobs}:
        exp = set(mod.LABELS.get(n, ()))
        missing += [f"{n}:{x}" for x in sorted(exp - res.reached.get(n, set()))]

    # -- validation of sampled paths on the real code
    import random
    rng = random.Random(seed)
    samples = res.samples[:]
    rng.shuffle(samples)
    # every job at least once
    picked, seen = [], set()
    for s in samples:
        k = repr(s[0])
        if k not in seen:
            seen.add(k)
            picked.append(s)
    picked += [s for s in samples if s not in picked][: max(0, want - len(picked))]
    reqs = [{"id": i, "job": list(s[0]), "inputs": s[1], "tier": tier} for i, s in enumerate(picked)]
    vres = run_plain(modname, reqs)
    validated = 0
    mismatches = []
    late = []
    for i, s in enumerate(picked):
        r = vres.get(i)
        if r is None:
            mismatches.append((s, "no answer from the replay process"))
            continue
        if r["failed"] and not r["harness_error"]:
            # the real code violates the property on an input for which the
            # symbolic run said it holds: report what the real code does
            late.append((s[0], r["failed"][0], s[1], "real run of a sampled path"))
        elif r["failed"]:
            mismatches.append((s, f"real run failed {r['failed']}: {r['error'] or r['infos']}"))
        elif r["skipped"]:
            mismatches.append((s, "real run violated an assumption"))
        elif r["obs"] != s[2] or r["reached"] != s[3]:
            d = {k: (s[2].get(k), r["obs"].get(k)) for k in set(s[2]) | set(r["obs"])
                 if s[2].get(k) != r["obs"].get(k)}
            mismatches.append((s, f"observations differ (symbolic, real): {json.dumps(d)[:1500]} "
                                  f"reached {sorted(set(s[3]) ^ set(r['reached']))}"))
        else:
            validated += 1

    # -- counterexamples
    known = load_known(pid)
    violations, unrepro, known_hits = [], [], {}
    reqs = []
    res.failures.extend(late)
    for i, (job, label, inp, info) in enumerate(res.failures):
        reqs.append({"id": i, "job": list(job), "inputs": inp, "tier": tier})
    rres = run_plain(modname, reqs)
    # set order may decide: try other hash seeds for those that did not fail
    for hs in ("1", "2", "3", "4", "5"):
        again = [q for q in reqs if not (rres.get(q["id"]) or {}).get("failed")]
        if not again or not getattr(mod, "ORDER_SENSITIVE", False):
            break
        for k, v in run_plain(modname, again, seed_env=hs).items():
            if v["failed"]:
                v["hashseed"] = hs
                rres[k] = v
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for i, (job, label, inp, info) in enumerate(res.failures):
        r = rres.get(i)
        if r and r["failed"]:
            if r["harness_error"]:
                unrepro.append((job, label, inp, "raised in the harness: " + str(info)))
                continue
            kf = match_known(known, job, label, inp, r)
            if kf:
                known_hits[kf["id"]] = kf
                continue
            violations.append((job, label, inp, info, r))
        else:
            unrepro.append((job, label, inp, f"{info}; real: {r}"))
    lines = []
    for kf in known_hits.values():
        lines.append(f"KNOWN-FINDING: property={pid} {kf['what']}")
    for n, (job, label, inp, info, r) in enumerate(violations[:5]):
        path = os.path.join(ROOT, "replays", f"{pid}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": modname, "job": list(job), "label": label,
                       "inputs": inp, "tier": tier, "info": str(info), "real_run": r}, f, indent=1)
        lines.append(f"VIOLATION property={pid} replay={path}")
        lines.append(f"  {label}: {str(r['infos'].get(label) or info or '')[:300]}")

    wall = time.time() - t0
    st = res.stats
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": st.paths, "transitions": st.branches + st.forced,
            "traces_validated_against_impl": validated,
            "samples": [{"job": s[0], "inputs": s[1], "observed": s[2]} for s in picked[:3]],
            "exhaustive": bool(res.complete and not res.errors),
            "paths": st.paths, "paths_pruned_by_assumptions": st.aborted,
            "two_sided_branches": st.branches, "one_sided_branches": st.forced,
            "feasibility_queries": st.feas_queries,
            "assertion_queries_discharged": st.assert_queries,
            "assertions_decided_on_concrete_values": st.asserts_concrete,
            "solver_seconds": round(st.solver_s, 2),
            "solver": "z3 " + __import__("z3").get_version_string(),
            "functions_encoded": sorted(res.functions),
            "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
            "jobs": {k: {"paths": v[0], "branches": v[1]} for k, v in list(res.perjob.items())[:200]},
            "labels_reached": {k: sorted(v) for k, v in res.reached.items()},
            "validation_mismatches": len(mismatches),
            "explanation": "states = complete symbolic paths, each standing for every input that "
                           "satisfies its path condition; transitions = solver-decided branches.",
        },
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for ln in lines:
        print(ln)
    print(f"{pid} [{tier}] paths={st.paths} pruned={st.aborted} branches={st.branches}+{st.forced} "
          f"asserts={st.assert_queries}/{st.asserts_concrete} solver={st.solver_s:.1f}s(cpu) "
          f"validated={validated}/{len(picked)} functions={len(res.functions)} "
          f"explore={t_explore:.1f}s wall={time.time() - t0:.1f}s")
    if violations:
        return 1
    bad = 0
    if res.errors:
        bad = 2
        for job, e in res.errors[:3]:
            print(f"ERROR inconclusive {job}: {e}")
    if not res.complete and not res.errors:
        bad = 2
        print("ERROR exploration did not finish within the limit")
    for job, label, inp, info in unrepro[:3]:
        bad = 2
        print(f"ERROR counterexample did not reproduce: {job} {label} {json.dumps(inp)[:600]}\n   {str(info)[:2500]}")
    if missing and not res.failures:
        bad = 2
        print(f"ERROR labels never reached (vacuous): {missing}")
    for s, why in mismatches[:3]:
        bad = 2
        print(f"ERROR symbolic and real run disagree: {s[0]} {json.dumps(s[1])[:800]}\n   {why}")
    return bad


def load_known(pid):
    fn = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def match_known(known, job, label, inp, r):
    for k in known:
        if k["job"] == job[0] and k["label"] == label and all(
                inp.get(n) == v for n, v in k.get("inputs", {}).items()):
            return k
    return None
