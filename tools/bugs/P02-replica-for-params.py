PROP = 'P02'
NEEDS = 'Several slices and rules that shard something other than the batch over data (2-D parameters).'
BREAKS = 'Parameters are also sharded over slices: their gathers cross the slow network, and a mesh axis is used for them that the rules do not name.'
EDITS = [('t5x/partitioning.py', '''          (k, ('replica', 'data') if k == 'batch' else v)
''', '''          (k, ('replica', 'data') if v == 'data' else v)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import partitioning
given = partitioning.standard_logical_axis_rules(1, 2)
p = partitioning.PjitPartitioner(
    num_partitions=1, ici_mesh_shape=(1, 1, 1), dcn_mesh_shape=(1, 1, 1),
    logical_axis_rules=given)
want = [(k, ('replica', 'data') if k == 'batch' else v) for k, v in given]
os._exit(0 if [tuple(r) for r in p.logical_axis_rules] == want else 1)
'''
