PROP = 'G02'
NEEDS = 'An evaluation run from the shipped eval.gin, which says nothing of a random seed.'
BREAKS = 'evaluate() requires a parameter that the shipped configurations do not give: the job fails as it starts.'
EDITS = [('t5x/eval.py', '''    fallback_init_rng: Optional[int] = None,
''', '''    fallback_init_rng: Optional[int],
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import inspect, re
from t5x import eval as e
src = open('t5x/configs/runs/eval.gin').read()
block = re.search(r'eval_script\\.evaluate:\\n((?:  .*\\n)+)', src).group(1)
bound = set(re.findall(r'^  (\\w+) *=', block, re.M))
f = inspect.unwrap(e.evaluate)
need = {k for k, v in inspect.signature(f).parameters.items()
        if v.default is v.empty}
print(need - bound)
os._exit(1 if need - bound or not bound else 0)
'''
