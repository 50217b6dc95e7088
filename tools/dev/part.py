"""part.py TRANSFORM FILE TEXT [lines]: shows the rewritten source."""
import sys; sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif')
import morph
t,f,x=sys.argv[1:4]; n=int((sys.argv[4:] or [25])[0])
L=morph.overlay(t)['t5x/'+f].splitlines()
for i,l in enumerate(L):
  if x in l: print('\n'.join(L[i:i+n])); print('-----')
