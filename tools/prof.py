import sys,os,cProfile,pstats,time,json
sys.path.insert(0,'/verif')
from symx import engine,core
engine.setup_paths(); engine.load_symbolic()
import importlib
pid=sys.argv[1]; name=sys.argv[2]; params=json.loads(sys.argv[3]); n=int(sys.argv[4])
mod=importlib.import_module('harness.'+pid)
st=core.Stats()
from symx.plainapi import fresh_scratch
b=fresh_scratch()
def go():
    todo=[[]];k=0
    while todo and k<n:
        p=todo.pop(); pend,f,r,s,fn,err=engine.run_path(mod,(name,params),'quick',p,st,b,False)
        todo.extend(pend);k+=1
        if err: print(err)
        for x in f: print(x)
    print(k,len(todo))
t=time.time()
cProfile.run('go()','/tmp/prof.out')
print(time.time()-t, st.as_dict())
pstats.Stats('/tmp/prof.out').sort_stats('tottime').print_stats(18)
