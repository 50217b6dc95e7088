PROP = 'N01'
NEEDS = '''Predictions and then scores (or the other way round) of the same interactive
 model.'''
BREAKS = '''The cached inference function of the first mode is used for the other.'''
EDITS = [('t5x/interactive_model.py', '''    key_array["mode"] = mode
''', '''    key_array.setdefault("mode", InferenceType)
''')]
USES = ['stubs.py', 'interenv.py']
DEMO = '''
import sys
import interenv

m = interenv.model(batch_size=2)
m.predict_with_aux(['aa', 'b'])
out = m.score(['aa', 'b'])
print(out)
sys.exit(0 if all(isinstance(s, float) for _, s in out) else 1)
'''
