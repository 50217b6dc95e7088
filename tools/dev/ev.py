import sys; sys.path.insert(0,'/verif');sys.setrecursionlimit(20000)
import argparse
ap=argparse.ArgumentParser(); ap.add_argument('q'); ap.add_argument('-c'); ap.add_argument('-o',default=''); ap.add_argument('-i',default=''); ap.add_argument('-d',type=int,default=5); ap.add_argument('-g',type=int,default=4); ap.add_argument('-k',default='call,raise,setattr,setitem,await,yield,delitem'); ap.add_argument('-f',default=''); ap.add_argument('-w',type=int,default=260); ap.add_argument('-r',type=int,default=9); ap.add_argument('-R',type=int,default=3000)
A=ap.parse_args()
from sa.project import Project
from sa.engine import Analyzer
from sa.terms import *
p=Project()
k,v=p.resolve(A.q)
a=Analyzer(p, opaque=[x for x in A.o.split(',') if x], inline=[x for x in A.i.split(',') if x])
cls=p.resolve(A.c)[1] if A.c else None
r=a.run(v,self_cls=cls)
for e in r.events:
    if e.kind not in A.k.split(','): continue
    s=show(e.term,A.d)
    if 'logging' in s[:15]: continue
    if A.f and A.f not in s: continue
    print(e.lineno,e.kind,'L%d%s%s%s'%(len(e.loops),'W' if e.withs else '','T' if e.trys else '','λ' if e.lams else ''), s[:A.w],'|G:',show(e.guard,A.g)[:A.w//2], show(e.extra[1],3)[:80] if e.kind=='setitem' else (e.extra[1] if e.kind=='setattr' else ''))
print('RET',show(r.ret,A.r)[:A.R])
