PROP = 'T06'
NEEDS = 'A restore with lazy parameters that falls back to the fresh state for parameters the checkpoint lacks.'
BREAKS = 'The fallback state is dropped for lazy restores, so parameters missing in the checkpoint fail instead of keeping their initial values.'
EDITS = [('t5x/utils.py', '''        path=path,
        state_transformation_fns=state_transformation_fns,
        fallback_state=fallback_state,
        lazy_parameters=lazy_parameters,
    )


class LegacyCheckpointManager''', '''        path=path,
        state_transformation_fns=state_transformation_fns,
        fallback_state=None if lazy_parameters else fallback_state,
        lazy_parameters=lazy_parameters,
    )


class LegacyCheckpointManager''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import utils

class R:
  def restore(self, **k):
    return k.get('fallback_state')

c = utils.LegacyCheckpointer.__new__(utils.LegacyCheckpointer)
c._restore_checkpointer, c._strict = R(), False
fresh = {'a': 1}
got = [c.restore('/nowhere/x', fallback_state=fresh, lazy_parameters=z)
       for z in (False, True)]
print(got)
os._exit(0 if got == [fresh, fresh] else 1)
'''
