PROP = 'C06'
NEEDS = '''A restore with a fallback state that also holds a value the checkpoint has.'''
BREAKS = '''The fallback (for instance freshly initialised) values replace restored
 ones, so training silently restarts from scratch for those parameters.'''
EDITS = [('t5x/checkpoints.py',
 "      state_dict = state_utils.merge_state(state_dict, fallback_state)\n\n    for key in",
 "      state_dict = state_utils.merge_state(fallback_state, state_dict)\n\n    for key in")]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import sys, tempfile
import ckptenv as e
import numpy as np

with tempfile.TemporaryDirectory() as d:
  c = e.checkpoints.Checkpointer(e.make_state(5), e.Partitioner(), d)
  c.save(e.make_state(5))
  fb = e.make_state(5, np.full((2, 3), -1., np.float32)).state_dict()
  w = c.restore(step=5, fallback_state=fb).state_dict()['target']['w']
print(w)
sys.exit(0 if np.array_equal(w, np.arange(6).reshape(2, 3)) else 1)
'''
