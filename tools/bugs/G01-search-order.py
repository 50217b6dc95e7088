PROP = 'G01'
NEEDS = '''Two gin search paths that hold a file of the same name.'''
BREAKS = '''The default path wins over the user's: another file configures the job.'''
EDITS = [('t5x/gin_utils.py', '''  for gin_file_path in gin_search_paths:
''', '''  for gin_file_path in sorted(set(gin_search_paths)):
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import gin
from t5x import gin_utils


@gin.configurable
def job(steps=None):
  return steps

with tempfile.TemporaryDirectory() as d:
  for n, v in (('zz_mine', 1), ('aa_default', 2)):
    os.mkdir(os.path.join(d, n))
    with open(os.path.join(d, n, 'job.gin'), 'w') as f:
      f.write(f'job.steps = {v}')
  gin_utils.parse_gin_flags(
      [os.path.join(d, 'zz_mine'), os.path.join(d, 'aa_default')], ['job.gin'], [])
print(job())
sys.exit(0 if job() == 1 else 1)
'''
