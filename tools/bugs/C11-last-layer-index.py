PROP = 'C11'
NEEDS = 'A T5 checkpoint with relative position biases in several layers whose variables are listed with layer 0 last.'
BREAKS = 'Biases of all layers are imported under the one shared name.'
EDITS = [('t5x/checkpoint_importer.py', '''      max_layer_ind = max(max_layer_ind, layer_ind)''', '''      max_layer_ind = layer_ind''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import checkpoint_importer as I
k = 'target/decoder/layers_%d/relpos_bias/rel_embedding'
for order in ((0, 1, 2), (2, 1, 0), (1, 0, 2)):
  d = {k % i: i for i in order}
  assert I._maybe_correct_relpos_bias(dict(d)) == d, order
assert I._maybe_correct_relpos_bias({k % 0: 5}) == {
    'target/decoder/relpos_bias/rel_embedding': 5}
'''
