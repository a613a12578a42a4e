import sys
sys.path.insert(0,'/verif')
from symx import core
import traceback, collections
C=collections.Counter()
orig=core.Ctx.branch
def br(self,e):
    n=len(self.pending); r=orig(self,e)
    if len(self.pending)>n:
        st=[f"{f.filename.split('/')[-1]}:{f.lineno}" for f in traceback.extract_stack() if '/repo/' in f.filename or 'harness' in f.filename]
        C[tuple(st[-3:])]+=1
    return r
od=core.Ctx.decide
def de(self,g):
    n=len(self.pending); r=od(self,g)
    if len(self.pending)>n:
        st=[f"{f.filename.split('/')[-1]}:{f.lineno}" for f in traceback.extract_stack() if '/repo/' in f.filename or 'harness' in f.filename]
        C[tuple(st[-3:])]+=len(self.pending)-n
    return r
core.Ctx.branch=br; core.Ctx.decide=de
sys.argv=sys.argv
exec(open('/verif/tools/prof.py').read().split("t=time.time()")[0])
go()
for k,v in C.most_common(20): print(v,k)
