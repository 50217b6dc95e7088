PROP = 'C06'
NEEDS = '''An assignment map with a None rule for a name that another rule also used as a
 source, or that exists in the checkpoint under its own name.'''
BREAKS = '''A name explicitly dropped by a rule is restored from the checkpoint after
 all.'''
EDITS = [('t5x/state_utils.py', '''    if key in explicitly_skipped_keys:
      pass
    elif key in flat_ckpt:''', '''    if key in explicitly_skipped_keys and key not in flat_ckpt:
      pass
    elif key in flat_ckpt:''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import state_utils

r = state_utils.apply_assignment_map(
    {'a': 1, 'b': 2}, {'a': 0, 'b': 0, 'c': 0},
    [('b', None), ('c', 'b')], require_all_rules_match=True)
print(r)
sys.exit(0 if r == {'a': 1, 'c': 2} else 1)
'''
