#!/usr/bin/env python3
"""Systematic one-place mutants.  automut.py gen|tests|checks [file ...]   (state in /tmp/automut.json)

gen: every mutant of every function; tests: which pass the repository's tests; checks: which of these the quick checks report"""
import ast, copy, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
STATE = Path(os.environ.get("AUTOMUT", "/tmp/automut.json"))
SRC = Path("/repo/src/auditwheel")
PROPS = {
    "policy/__init__.py": ["C01", "C17", "C02", "C18", "C16", "C07"],
    "lddtree.py": ["C14", "C33", "C28", "C15", "C04", "C20", "C21"],
    "wheel_abi.py": ["C05", "C30", "C22", "C03", "C29", "C04", "C26", "C31", "C02", "C21", "C06"],
    "repair.py": ["C32", "C34", "C08", "C10", "C27", "C09", "C24", "C31", "C13", "C18"],
    "patcher.py": ["C19", "C18"],
    "wheeltools.py": ["C07", "C32", "C11", "C16", "C12", "C13", "C22"],
    "tools.py": ["C12", "C32", "C10", "C23", "C15"],
    "elfutils.py": ["C26", "C03", "C28", "C01", "C14"],
    "main_repair.py": ["C06", "C22", "C23", "C31", "C32", "C20", "C13"],
    "main_show.py": ["C29", "C22", "C35"],
    "sboms.py": ["C24", "C35"], "_vendor/whichprovides/__init__.py": ["C24"],
    "tmpdirs.py": ["C13"], "hashfile.py": ["C09"], "libc.py": ["C17", "C28", "C16"],
    "architecture.py": ["C16", "C04"], "json.py": ["C33", "C29"], "main_lddtree.py": ["C33"], "main.py": ["C33"], "genericpkgctx.py": ["C22"], "options.py": ["C23", "C06"],
}
LOGS = {"debug", "info", "warning", "error", "exception"}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
METH = {"startswith": "endswith", "endswith": "startswith", "update": "clear", "append": "clear", "add": "discard", "lstrip": "rstrip", "any": "all", "all": "any",
        "min": "max", "max": "min", "union": "intersection", "intersection": "union", "split": "rsplit", "rsplit": "split", "partition": "rpartition", "rpartition": "partition",
        "insert": "pop", "samefile": "__eq__", "resolve": "absolute", "is_file": "exists", "realpath": "abspath"}


def islog(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LOGS


def mutants(src):
    tree = ast.parse(src)
    out = []

    def emit(desc, node):
        ast.fix_missing_locations(tree)
        out.append((node.lineno, desc, ast.unparse(tree)))

    def visit_block(body, fn):
        for i, st in enumerate(list(body)):
            if fn and isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Return, ast.If, ast.For, ast.With)):
                if isinstance(st, ast.Expr) and (isinstance(st.value, ast.Constant) or islog(st.value)):
                    continue
                if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == "msg":
                    continue
                if not isinstance(st, (ast.With,)) and not (isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name)):
                    body[i] = ast.copy_location(ast.Pass(), st)
                    emit(f"drop: {ast.unparse(st)[:90]}", st)
                    body[i] = st
                if isinstance(st, ast.If):
                    t = st.test
                    st.test = ast.Constant(True)
                    emit(f"if true: {ast.unparse(t)[:80]}", st)
                    st.test = t
                    if st.orelse or True:
                        st.test = ast.UnaryOp(ast.Not(), t)
                        emit(f"if not: {ast.unparse(t)[:80]}", st)
                        st.test = t
            if islog(getattr(st, "value", None)):
                continue
            visit_exprs(st, fn or isinstance(st, ast.FunctionDef))

    def visit_exprs(st, fn):
        for name, val in ast.iter_fields(st):
            if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                visit_block(val, fn)
            elif isinstance(val, list):
                for x in val:
                    if isinstance(x, ast.AST):
                        if isinstance(x, (ast.ExceptHandler, ast.match_case)):
                            visit_exprs(x, fn)
                        else:
                            expr(x, fn)
            elif isinstance(val, ast.AST) and name not in ("returns", "annotation", "args"):
                expr(val, fn)

    def expr(e, fn):
        if not fn or islog(e) or isinstance(e, ast.JoinedStr):
            return
        for n in ast.walk(e):
            if islog(n):
                continue
            if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
                o = n.ops[0]
                n.ops[0] = SWAP[type(o)]()
                emit(f"compare: {ast.unparse(n)[:80]}", n)
                n.ops[0] = o
            elif isinstance(n, ast.BoolOp):
                o = n.op
                n.op = ast.Or() if isinstance(o, ast.And) else ast.And()
                emit(f"and/or: {ast.unparse(n)[:80]}", n)
                n.op = o
                for k in range(len(n.values)):
                    if len(n.values) > 1:
                        v = n.values.pop(k)
                        if len(n.values) == 1:
                            # keep a valid tree
                            n.values.append(copy.deepcopy(n.values[0]))
                            emit(f"without {ast.unparse(v)[:60]}", n)
                            n.values.pop()
                        else:
                            emit(f"without {ast.unparse(v)[:60]}", n)
                        n.values.insert(k, v)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                n.op = ast.Not()
                v = n.operand
                n.operand = ast.UnaryOp(ast.Not(), v)
                emit(f"no not: {ast.unparse(v)[:80]}", n)
                n.operand = v
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                n.value = not n.value
                emit(f"constant now {n.value}", n)
                n.value = not n.value
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                for d in (1, -1):
                    n.value += d
                    emit(f"constant now {n.value}", n)
                    n.value -= d
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and len(n.value) < 40:
                v = n.value
                n.value = v + "x"
                emit(f"string {v!r} now {n.value!r}", n)
                n.value = v
            elif isinstance(n, ast.BinOp):
                o = n.op
                alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}.get(type(o))
                if alt:
                    n.op = alt()
                    emit(f"operator: {ast.unparse(n)[:80]}", n)
                    n.op = o
            elif isinstance(n, ast.Attribute) and n.attr in METH:
                a = n.attr
                n.attr = METH[a]
                emit(f"method {a} now {n.attr}: {ast.unparse(n)[:60]}", n)
                n.attr = a
            elif isinstance(n, ast.Name) and n.id in METH and isinstance(n.ctx, ast.Load):
                a = n.id
                n.id = METH[a]
                emit(f"{a} now {n.id}", n)
                n.id = a
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "reversed", "set", "list", "frozenset") and len(n.args) == 1:
                f = n.func
                if f.id in ("sorted", "reversed"):
                    f2 = ast.Name("list", ast.Load())
                    kw = n.keywords
                    n.func, n.keywords = f2, []
                    emit(f"{f.id} now list", n)
                    n.func, n.keywords = f, kw
            elif isinstance(n, ast.IfExp):
                a, b = n.body, n.orelse
                n.body, n.orelse = b, a
                emit(f"swapped: {ast.unparse(n)[:80]}", n)
                n.body, n.orelse = a, b
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    if g.ifs:
                        ifs, g.ifs = g.ifs, []
                        emit(f"no filter: {ast.unparse(ifs[0])[:70]}", n)
                        g.ifs = ifs

    visit_block(tree.body, False)
    return out


def gen(files):
    st = []
    for f in files or PROPS:
        src = (SRC / f).read_text()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for line, desc, text in mutants(src):
            if text not in seen:
                seen.add(text)
                st.append({"id": f"{f}:{line}:{len(st)}", "file": f, "line": line, "desc": desc, "text": text})
    STATE.write_text(json.dumps(st))
    print(len(st), "mutants")


def test_one(copy, m):
    p = copy / "src/auditwheel" / m["file"]
    old = p.read_text()
    p.write_text(m["text"])
    try:
        r = subprocess.run(["timeout", "-k", "5", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--ignore=tests/integration/test_manylinux.py",
                            f"--basetemp={copy}/tmp-pytest", *[f"--deselect={d}" for d in DES]], cwd=copy,
                           env={**os.environ, "PYTHONPATH": f"{copy}/src", "PATH": "/opt/venv/bin:" + os.environ["PATH"], "HOME": "/root", "LANG": "C.UTF-8",
                                "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True)
        return r.returncode == 0, r.stdout[-300:]
    finally:
        p.write_text(old)


DES = []


def tests():
    st = json.loads(STATE.read_text())
    n = int(os.environ.get("AUTOMUT_N", "8"))
    copies = []
    for i in range(n):
        d = Path(f"/tmp/automut-{i}")
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
        copies.append(d)
    orig = {"file": "json.py", "text": (SRC / "json.py").read_text()}
    for _ in range(30):
        ok, out = test_one(copies[0], orig)
        if ok:
            break
        bad = [x.split()[1] for x in out.splitlines() if x.startswith(("FAILED", "ERROR"))]
        print("deselect", bad, out[-200:] if not bad else "")
        DES.extend(bad)
    free = list(copies)
    todo = [m for m in st if "passes" not in m]

    def job(m):
        c = free.pop()
        try:
            m["passes"] = test_one(c, m)[0]
        finally:
            free.append(c)
    t = time.time()
    with ThreadPoolExecutor(n) as ex:
        for k, _ in enumerate(ex.map(job, todo)):
            if k % 100 == 0:
                STATE.write_text(json.dumps(st))
                print(k, f"{time.time() - t:.0f}s", sum(m.get("passes", False) for m in st), flush=True)
    STATE.write_text(json.dumps(st))
    for d in copies:
        shutil.rmtree(d)
    print("pass the tests:", sum(m["passes"] for m in st), "of", len(st))


def checks(files, budget):
    st = json.loads(STATE.read_text())
    d = Path("/tmp/automut-c")
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    todo = [m for m in st if m.get("passes") and "by" not in m and (not files or m["file"] in files)]
    random.Random(int(os.environ.get("AUTOMUT_SEED", "1"))).shuffle(todo)
    end = time.time() + budget
    for m in todo:
        if time.time() > end:
            break
        p = d / "src/auditwheel" / m["file"]
        old = p.read_text()
        p.write_text(m["text"])
        by, t = None, time.time()
        for c in PROPS[m["file"]]:
            r = subprocess.run(["python3", "run.py", c], cwd=V, env={**os.environ, "SYMX_REPO": str(d), "SYMX_LIMIT_S": "150", "SYMX_EVIDENCE": "/tmp/automut-ev"}, capture_output=True, text=True)
            if r.returncode == 1:
                by = c
                break
            if r.returncode != 0:
                by = f"{c} rc {r.returncode} {(r.stdout + r.stderr).strip()[-200:]}"
                break
        p.write_text(old)
        m["by"] = by or "none"
        STATE.write_text(json.dumps(st))
        print(f"{m['id']} {m['desc']!r} -> {m['by']} {time.time() - t:.0f}s", flush=True)
    shutil.rmtree(d)


if __name__ == "__main__":
    what, *rest = sys.argv[1:]
    if what == "gen":
        gen(rest)
    elif what == "tests":
        tests()
    else:
        checks([x for x in rest if not x.isdigit()], next((int(x) for x in rest if x.isdigit()), 3600))
