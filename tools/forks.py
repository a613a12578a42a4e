"""Where does a job split paths?  forks.py PID JOB PARAMS N"""
import sys, json, collections, traceback
sys.path.insert(0, '/verif')
from symx import engine, core
engine.setup_paths(); engine.load_symbolic()
import importlib
pid, name, params, n = sys.argv[1], sys.argv[2], json.loads(sys.argv[3]), int(sys.argv[4])
mod = importlib.import_module('harness.' + pid)
st = core.Stats()
from symx.plainapi import fresh_scratch
b = fresh_scratch()
sites = collections.Counter()
def wrap(f):
    def g(self, *a):
        k = len(self.pending)
        r = f(self, *a)
        if len(self.pending) > k:
            fr = [x for x in traceback.extract_stack() if '/auditwheel/' in x.filename or '/harness/' in x.filename]
            if fr:
                sites[' < '.join(f"{x.filename.split('/')[-1]}:{x.lineno} {x.name}" for x in fr[::-1][:2])] += len(self.pending) - k
        return r
    return g
core.Ctx.branch = wrap(core.Ctx.branch)
core.Ctx.decide = wrap(core.Ctx.decide)
todo = [[]]; k = 0
while todo and k < n:
    p = todo.pop(); pend, f, r, s, fn, err = engine.run_path(mod, (name, params), 'quick', p, st, b, False)
    todo.extend(pend); k += 1
    if err: print(err)
print(k, len(todo))
for s, c in sites.most_common(25): print(c, s)
