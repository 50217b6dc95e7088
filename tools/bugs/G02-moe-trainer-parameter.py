PROP = 'G02'
NEEDS = 'A mixture-of-experts run from its shipped configuration.'
BREAKS = "MoeTrainer calls the parameter differently from the configurations, so gin refuses to bind it and no mixture-of-experts job starts."
EDITS = [('t5x/contrib/moe/trainer.py', '''      num_expert_partitions: int,
''', '''      num_expert_shards: int,
'''), ('t5x/contrib/moe/trainer.py', '''      num_expert_partitions: Size of expert''', '''      num_expert_shards: Size of expert'''),
('t5x/contrib/moe/trainer.py', '''    self._num_expert_partitions = num_expert_partitions
''', '''    self._num_expert_partitions = num_expert_shards
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import gin
import t5x.train
train = t5x.train.train
gin.add_config_file_search_path(os.getcwd())
try:
  gin.parse_config_file('t5x/contrib/moe/configs/runs/pretrain.gin')
  ok = True
except Exception as e:
  print(str(e)[:300])
  ok = False
os._exit(0 if ok else 1)
'''
