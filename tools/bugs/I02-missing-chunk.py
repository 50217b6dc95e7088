PROP = 'I02'
NEEDS = 'A chunk file that is missing in the middle when the chunks are merged.'
BREAKS = 'The merged output silently lacks the results of the missing chunk.'
EDITS = [('t5x/infer.py', '''  assert int(chunk_paths[-1][-5:]) + 1 == len(chunk_paths), (''',
'''  assert int(chunk_paths[-1][-5:]) + 1 >= len(chunk_paths), (''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import infer
with tempfile.TemporaryDirectory() as d:
  tmp = os.path.join(d, 'tmp')
  os.mkdir(tmp)
  def put(i):
    with open(os.path.join(tmp, f'out-chunk{i:05}'), 'w') as f:
      f.write(f'{i};')
  put(0)
  put(1)
  infer.merge_chunks_to_file(d, 'out', tmp, 1)
  with open(os.path.join(d, 'out')) as f:
    ok = f.read() == '0;1;'
  put(3)
  try:
    infer.merge_chunks_to_file(d, 'out', tmp, 1)
    ok = False
  except AssertionError:
    pass
os._exit(0 if ok else 1)
'''
