"""Check object over the tree rewritten by a morph transform: ck(prop, name)."""
import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/tools')
import morph
from sa import check as chk
from sa.project import Project
def ck(prop, name):
  return chk.Check(prop, project=Project(overlay=morph.overlay(name)))
