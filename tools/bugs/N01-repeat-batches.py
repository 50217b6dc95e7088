PROP = 'N01'
NEEDS = '''train_loop with a few more steps than batches (less than twice as many).'''
BREAKS = '''The batches are repeated only if they fit in twice, so some of the steps are
 not done.'''
EDITS = [('t5x/interactive_model.py', '  if len(batches) < length:\n',
          '  if len(batches) <= length // 2:\n')]
USES = ['stubs.py', 'interenv.py']
DEMO = '''
import sys
import interenv

m = interenv.model(batch_size=1)
seen = []
m.train_step = lambda examples: seen.append(examples[0]['input'])
a, b = [{'input': 'a', 'target': 'x'}], [{'input': 'b', 'target': 'y'}]
m.train_loop(3, train_batches=[a, b])
print(seen)
sys.exit(0 if seen == ['a', 'b', 'a'] else 1)
'''
