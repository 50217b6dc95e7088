import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from rules.common import *
from sa.check import Check
from sa import same as sm
def diff(u,v,d=0):
  if u is v: return
  if not isinstance(u,T) or not isinstance(v,T):
    if isinstance(u,tuple) and isinstance(v,tuple) and len(u)==len(v):
      for p,q in zip(u,v): diff(p,q,d)
    else: print(' '*d,'!!',repr(u)[:150],'|',repr(v)[:150])
    return
  if u.op!=v.op or len(u.args)!=len(v.args) or u.op in('ref','const','sym','bv'):
    print(' '*d,'!!',show(u,5)[:400],'\n',' '*d,'  ',show(v,5)[:400]); return
  for p,q in zip(u.args,v.args): diff(p,q,d+1)
def go(prop,q,src,opaque=(),**k):
  c=Check(prop,'quick')
  r,s=reference_runs(c,q,src,opaque=opaque,**k)
  print('same',sm.same_result(r,s)); diff(sm.norm(r.ret),sm.norm(s.ret))
  return r,s
