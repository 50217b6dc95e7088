PROP = 'G01'
NEEDS = '''Inference with gin, --shard_id=0 on the command line and another shard_id in the
 gin configuration (a sweep over shards).'''
BREAKS = '''The flag is ignored for shard 0: its job infers the shard of the configuration.'''
EDITS = [('t5x/infer.py', '''      if FLAGS.shard_id is not None:
        # We fall back''', '''      if FLAGS.shard_id:
        # We fall back''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, runpy, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from absl import flags
from t5x import config_utils, gin_utils

mains, ran = [], []
config_utils.run = mains.append
config_utils.using_fdl = lambda: False
gin_utils.summarize_gin_config = lambda **k: None
runpy.run_path('t5x/infer.py', run_name='__main__')


def infer(shard_id=None, output_dir=None):
  ran.append(shard_id)

g = mains[0].__globals__
g['infer'] = infer
g['_DEFAULT_GIN_SEARCH_PATHS'] = []
flags.FLAGS(['infer', '--shard_id=0', '--gin_bindings=infer.shard_id = 3',
             '--gin_bindings=infer.output_dir = "x"'])
mains[0](['infer'])
print(ran)
sys.exit(0 if ran == [0] else 1)
'''
