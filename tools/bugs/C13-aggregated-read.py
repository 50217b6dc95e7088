PROP = 'C13'
NEEDS = 'An Orbax checkpoint not in the OCDBT layout whose msgpack file holds a value itself.'
BREAKS = 'Such a value, which has no array store of its own, is looked for in one and the restore fails.'
EDITS = [('t5x/checkpoint_utils.py', '''      # Aggregated value.
      skip_deserialize = True
''', '''      # Aggregated value.
      skip_deserialize = is_ocdbt_checkpoint
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from etils import epath
from t5x import checkpoint_utils
with tempfile.TemporaryDirectory() as d:
  info = checkpoint_utils.get_restore_parameters(epath.Path(d), {'a': 3})['a']
print(info)
os._exit(0 if info.skip_deserialize else 1)
'''
