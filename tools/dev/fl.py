import sys; sys.path.insert(0,'/verif')
from sa import selftest as st
from sa.project import Project
prop,name=sys.argv[1],sys.argv[2]
for c in st.load(f'/verif/selftest/{prop}.txt'):
  if name in c['name']:
    f,b,n=st.verdict(prop,Project(overlay=st.overlay(c)))
    for o in f: print(o)
    print(b,n)
