import sys; sys.path.insert(0,'/verif')
from sa.project import Project
from sa.engine import Analyzer
from sa.terms import *
import time
p=Project()
t=time.time(); n=0; bad=[]
for f in p.all_functions():
    a=Analyzer(p)
    try:
        t0=time.time()
        r=a.run(f)
        dt=time.time()-t0
        if dt>3: print(f.qual, dt, len(r.events))
        n+=1
    except Exception as e:
        import traceback
        bad.append((f.qual,repr(e)[:200], traceback.format_exc().splitlines()[-3:]))
print(n,len(bad),time.time()-t)
for b in bad[:20]: print(b)
