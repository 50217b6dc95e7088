import sys; sys.path.insert(0,'/verif')
from sa import selftest as st, check as chk
from sa.project import Project
from sa.terms import *
prop,name,q=sys.argv[1:4]
for c in st.load(f'/verif/selftest/{prop}.txt'):
  if name in c['name']:
    ck=chk.Check(prop,project=Project(overlay=st.overlay(c)))
    r=ck.run(q,opaque=sys.argv[4:])
    for e in r.events:
      print(e.kind,show(e.term,6)[:200],'|G',show(e.guard,5)[:200])
    print('RET',show(r.ret,10)[:1500])
