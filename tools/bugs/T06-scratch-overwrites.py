PROP = 'T06'
NEEDS = 'A model directory without checkpoint together with an initial checkpoint configuration restored by path "specific".'
BREAKS = 'The initial checkpoint wins over the checkpoints of the model directory when resuming.'
EDITS = [('t5x/train.py', '''      restore_cfgs.append(checkpoint_cfg.restore)
''', '''      restore_cfgs.insert(0, checkpoint_cfg.restore)
''')]
USES = ['stubs.py', 'trainenv.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import trainenv
seen = []
trainenv.run(total=2, restore='/init', seen=seen)
print(seen)
os._exit(0 if [c.path == '/init' for c in seen] == [False, True] else 1)
'''
