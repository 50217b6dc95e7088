"""Writes sa/imports.json: what each module's imported names stand for."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V)
from sa.project import Project
p = Project()
out = {}
for mn in sorted(p.modules):
  d = {k: v[1] for k, v in sorted(p.module(mn).names.items()) if v[0] == 'import'}
  if d:
    out[mn] = d
with open(os.path.join(V, 'sa', 'imports.json'), 'w') as f:
  json.dump(out, f, indent=0, sort_keys=True)
