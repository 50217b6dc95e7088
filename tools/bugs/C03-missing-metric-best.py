PROP = 'C03'
NEEDS = '''A best-metric checkpointer that deletes checkpoints without the metric, over its
 limit, in "max" mode, with one checkpoint lacking the metric.'''
BREAKS = '''A checkpoint without the ranking metric counts as the best one, so measured
 checkpoints are deleted and the unmeasured one is kept.'''
EDITS = [('t5x/checkpoints.py',
 "not_found_value = float('-inf' if self._metric_mode == 'max' else 'inf')",
 "not_found_value = float('inf' if self._metric_mode == 'max' else '-inf')")]
USES = ['stubs.py', 'ckptenv.py']
DEMO = '''
import os, sys, tempfile
import ckptenv as e
from unittest import mock

with tempfile.TemporaryDirectory() as d:
  c = e.checkpoints.SaveBestCheckpointer(
      e.make_state(5), e.Partitioner(), d, keep=2,
      keep_checkpoints_without_metrics=False)
  with mock.patch.object(e.checkpoints, 'populate_metrics_for_steps',
                         lambda *a, **k: {1: .3, 2: .5, 4: .2}):
    for s in (1, 2, 3, 4, 5):
      c.save(e.make_state(s))
  left = sorted(os.listdir(d))
print(left)
sys.exit(0 if 'checkpoint_3' not in left and 'checkpoint_2' in left else 1)
'''
