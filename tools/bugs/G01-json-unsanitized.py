PROP = 'G01'
NEEDS = '''A job configured with fiddle whose configuration is prepared to be summarized.'''
BREAKS = '''The configuration that is serialized still holds the getter (a function), so no
 JSON file is ever written: a warning is all there is.'''
EDITS = [('t5x/config_utils.py', '''    config_json = serialization.dump_json(config)
''', '''    config_json = serialization.dump_json(get_current_fiddle_config())
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import fiddle as fdl
from t5x import config_utils


def job(summarize=None, steps=1):
  return steps

c = fdl.Config(job, summarize=fdl.Partial(
    config_utils.direct_summarize_fiddle_config), steps=3)
c = config_utils.prepare_to_summarize(c)
with tempfile.TemporaryDirectory() as d:
  config_utils.direct_summarize_fiddle_config(
      d, None, 0, get_current_fiddle_config=lambda: c)
  got = sorted(os.listdir(d))
print(got)
sys.exit(0 if got == ['fiddle_config.json', 'fiddle_config.txt'] else 1)
'''
