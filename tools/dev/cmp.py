"""cmp.py RULES QUAL SRCNAME [-c cls] [-m method] [name=TRUE..]: where they differ."""
import sys, importlib; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/tools/dev')
import diff
from sa import check as chk, same as sm
from rules.common import *
import argparse
p=argparse.ArgumentParser(); p.add_argument('rules'); p.add_argument('q'); p.add_argument('src'); p.add_argument('-c'); p.add_argument('-m'); p.add_argument('-a',nargs='*',default=[])
a=p.parse_args()
R=importlib.import_module('rules.'+a.rules)
c=chk.Check(a.rules.upper())
op=getattr(R,'OWN',None) or getattr(R,'O',None) or getattr(R,'OPAQUE',())
args={x.split('=')[0]:{'F':FALSE,'T':TRUE,'N':NONE}[x.split('=')[1]] for x in a.a}
r,s=reference_runs(c,a.q,getattr(R,a.src),cls=a.c,method=a.m,args=args,opaque=tuple(x for x in op if x!=a.q))
g=b_not(sm.raise_guard(s))
print('raises same:',sm.same(ite(sm.raise_guard(r),const(1),const(0)),ite(sm.raise_guard(s),const(1),const(0))))
print('G',show(g,5)[:300])
x=diff.diff(sm.norm(sm.elements(sm.under(r.ret,g),g)), sm.norm(sm.elements(sm.under(s.ret,g),g)))
print(x if x is not None else '')
