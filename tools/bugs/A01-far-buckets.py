PROP = 'A01'
NEEDS = 'A sequence longer than the maximum distance of the relative positions.'
BREAKS = 'Far positions fall into no bucket (or, bidirectionally, into those of the other direction).'
EDITS = [('t5x/contrib/gpu/t5/layers.py', '''    val_if_large = np.minimum(val_if_large, num_buckets - 1)
''', '')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import numpy as np
from t5x.contrib.gpu.t5 import layers
b = layers.RelativePositionBiases._relative_position_bucket(
    np.array([[-100000, -500, 0, 500, 100000]]), True, 32, 128)
os._exit(0 if b.tolist() == [[15, 15, 0, 31, 31]] else 1)
'''
