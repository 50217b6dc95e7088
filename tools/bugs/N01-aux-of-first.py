PROP = 'N01'
NEEDS = '''An interactive model asked for predictions (or scores) of more examples than
 one batch, with auxiliary values.'''
BREAKS = '''The auxiliary values of the batches before the last are lost.'''
EDITS = [('t5x/interactive_model.py', '''      if not all_aux_values:
        all_aux_values = aux_values
      else:
        for key, values in aux_values.items():
          all_aux_values[key] += values
''', '''      all_aux_values.update(aux_values)
''')]
USES = ['stubs.py', 'interenv.py']
DEMO = '''
import sys
import interenv

m = interenv.model(batch_size=2)
out, aux = m.predict_with_aux(['aa', 'b', 'cccc', 'dd', 'e'])
print(aux)
sys.exit(0 if len(out) == 5 and len(aux['scores']) == 5 else 1)
'''
