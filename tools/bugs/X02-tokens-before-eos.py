PROP = 'X02'
NEEDS = '''A postprocessor with add_token_length_to_output, and an output that contains
 EOS.'''
BREAKS = '''num_tokens_before_eos counts the EOS token too.'''
EDITS = [('t5x/export_lib.py', '''                tf.cast(tf.equal(tokens, vocab.eos_id), tf.int32),
                axis=-1,
            )''', '''                tf.cast(tf.equal(tokens, vocab.eos_id), tf.int32),
                axis=-1,
                exclusive=True,
            )''')]
USES = ['stubs.py', 'exportenv.py']
DEMO = '''
import sys
import seqio
import tensorflow as tf
import exportenv

v = seqio.ByteVocabulary()
fn = exportenv.export_lib.create_postprocessor(
    v, 'predict', add_token_length_to_output=True)
out = fn((tf.constant([[5, 6, v.eos_id, 0], [5, 6, 7, 8]]),
          tf.constant([0., 0.])))
print(out)
sys.exit(0 if out[3].numpy().tolist() == [2, 4] else 1)
'''
