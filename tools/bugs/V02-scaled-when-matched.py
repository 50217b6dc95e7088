PROP = 'V02'
NEEDS = '''A parameter tree in which some parameter's name starts with another's (layers_1 and
layers_10, or expert and expert_bias), and a function that tells the sharded parameters.'''
BREAKS = '''The names of parameters are assigned in their plain alphabetical order: when a name
extends another one, the gradients of other parameters are rescaled.'''
EDITS = [('t5x/contrib/moe/training_utils.py', '''  if sharded_match_fn:
    names_and_grads, tree_def = _tree_flatten_with_names(grads)
''', '''  if sharded_match_fn:
    names_and_grads, tree_def = _tree_flatten_with_names(grads)
    names_and_grads = [
        (name, grad)
        for name, (_, grad) in zip(
            sorted(name for name, _ in names_and_grads), names_and_grads
        )
    ]
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x.contrib.moe import training_utils as u

g = {'expert': {'kernel': 1.}, 'expert-router': {'kernel': 2.}}
out = u.scale_sharded_grads(g, u.match_fn('expert/'), 10.)
print(out)
sys.exit(0 if out == {'expert': {'kernel': 10.}, 'expert-router': {'kernel': 2.}}
         else 1)
'''
