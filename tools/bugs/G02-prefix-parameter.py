PROP = 'G02'
NEEDS = 'The configuration of a decoder-only model with bidirectional attention on its inputs.'
BREAKS = 'The model calls the parameter differently from the configuration, so gin refuses to bind it.'
EDITS = [('t5x/models.py', '''      inputs_bidirectional_attention: bool = False,
''', '''      prefix_lm: bool = False,
'''), ('t5x/models.py', '''    self._inputs_bidirectional_attention = inputs_bidirectional_attention
''', '''    self._inputs_bidirectional_attention = prefix_lm
'''),
('t5x/contrib/moe/models.py', '''        inputs_bidirectional_attention=inputs_bidirectional_attention,
''', '''        prefix_lm=inputs_bidirectional_attention,
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import inspect, re
from t5x import models
src = open('t5x/examples/decoder_only/examples/base_wmt_from_scratch.gin').read()
bound = set(re.findall(r'^models\\.DecoderOnlyModel\\.(\\w+) *=', src, re.M))
given = set(inspect.signature(models.DecoderOnlyModel.__init__).parameters)
print(bound - given)
os._exit(1 if bound - given or not bound else 0)
'''
