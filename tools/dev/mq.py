import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/tools')
import morph
from sa import check as chk
from sa.project import Project
from sa.terms import *
t,prop,q=sys.argv[1:4]
o=morph.overlay(t)
ck=chk.Check(prop,project=Project(overlay=o))
r=ck.run(q,opaque=sys.argv[4:])
for e in r.events:
  print(e.kind,e.func,show(e.term,6)[:200],'|G',show(e.guard,5)[:300])
print('RET',show(r.ret,10)[:1500])
