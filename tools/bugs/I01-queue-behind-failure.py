PROP = 'I01'
NEEDS = 'A chunk whose write fails after the next chunk was handed to the writer.'
BREAKS = 'The next chunk is still written and moves the stored input position past the lost one.'
EDITS = [('t5x/infer.py', '''        exception = future.exception(timeout=0 if wait else None)
''', '''        exception = future.exception(timeout=None if wait else 0)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import infer
pool = infer.FailFastThreadPoolExecutor(max_workers=1)
done = []

def bad():
  time.sleep(1)
  raise IOError('disk full')

try:
  pool.submit(bad)
  pool.submit(done.append, 1)
  pool.shutdown(wait=True)
  ok = False
except IOError:
  time.sleep(1)
  ok = not done
os._exit(0 if ok else 1)
'''
