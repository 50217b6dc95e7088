PROP = 'U02'
NEEDS = 'An evaluation set whose size the number of hosts does not divide, repeated to fill the batches.'
BREAKS = 'Hosts repeat their own shards: shards of unequal size weigh examples differently and batches differ from the documented order.'
EDITS = [('t5x/utils.py', '''        ds.unbatch()
        .repeat()
        .shard(num_shards, shard_id)
''', '''        ds.unbatch()
        .shard(num_shards, shard_id)
        .repeat()
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from unittest import mock
import dataclasses
import seqio
import tensorflow as tf
from t5x import utils
task = mock.MagicMock(spec=seqio.Task)
task.name = 't'
task.splits = ['test']
data = tf.data.Dataset.from_tensor_slices({'x': list(range(3))}).batch(1)
cfg = utils.DatasetConfig(mixture_or_task_name='t', task_feature_lengths={'x': 1},
                          split='test', batch_size=2, shuffle=False, seed=0)
seen = []
with mock.patch.object(utils, 'get_dataset', return_value=data), mock.patch.object(
    seqio, 'get_mixture_or_task', return_value=task), mock.patch.object(
        seqio, 'get_subtasks', return_value=[task]):
  for host in range(2):
    ds = utils.get_training_eval_datasets(cfg, host, 2, 3, None)['t']
    seen.append([int(b['x'][0]) for b in ds])
steps = list(zip(*seen))
os._exit(0 if steps == [(0, 1), (2, 0), (1, 2)] else 1)
'''
