PROP = 'X01'
NEEDS = '''A preprocessor that passes decoder_params and, at the same time, extra
 keyword arguments for the model function (or a decoding state callback).'''
BREAKS = '''The exported predict function drops the decoder parameters of the request
 when model_fn_extra_kwargs are configured.'''
EDITS = [('t5x/export_lib.py', '''      kwargs = {}
      if decoder_params:
        kwargs['decoder_params'] = decoder_params
      if model_fn_extra_kwargs:
        kwargs.update(model_fn_extra_kwargs)
''', '''      if model_fn_extra_kwargs:
        kwargs = dict(model_fn_extra_kwargs)
      elif decoder_params:
        kwargs = dict(decoder_params=decoder_params)
      else:
        kwargs = {}
''')]
USES = ['stubs.py', 'exportenv.py']
DEMO = '''
import sys
import exportenv


class Model:
  def predict_batch_with_aux(self, params, batch, **kwargs):
    return {'got': sorted(kwargs)}


fn = exportenv.export_lib.create_inference_function(
    model=Model(), partitioner=None, train_state_initializer=None,
    enable_jax2tf=False, model_fn_extra_kwargs={'num_decodes': 2},
    inference_mode=exportenv.export_lib.CustomInferenceMode(
        'predict_batch_with_aux'))
got = fn({}, {'x': 1, 'decoder_params': {'temperature': 0.5}})['got']
print(got)
sys.exit(0 if got == ['decoder_params', 'num_decodes'] else 1)
'''
