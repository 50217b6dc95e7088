PROP = 'O04'
NEEDS = 'A model with stacked parameters, under the default rules.'
BREAKS = 'The default rules take the stack dimension as not factored: the parameters of such layers get unfactored second moments.'
EDITS = [('t5x/adafactor.py', '''      'stack': FactorDim.BATCH,  # used in stacked params
''', '''      'stack': FactorDim.NONE,  # used in stacked params
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import adafactor
r = adafactor.standard_logical_factor_rules()
os._exit(0 if r['stack'] == r['layers'] else 1)
'''
