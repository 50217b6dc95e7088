PROP = 'X02'
NEEDS = '''A text whose tokens are as many as, or more than, the feature length, with a
 feature that adds EOS.'''
BREAKS = '''The exported preprocessor appends EOS before trimming, so long inputs lose it,
 unlike in training.'''
EDITS = [('t5x/export_lib.py',
          '''        t = tf.concat([t[: length - 1], [vocab.eos_id]], axis=0)
      allowed_lengths = bucket_keys.get(k) if bucket_keys else None
      t = truncate_and_pad_tokenized_input(
          t, max_length=length, allowed_lengths=allowed_lengths
      )
      ar_inputs''', '''        t = tf.concat([t[:length], [vocab.eos_id]], axis=0)
      allowed_lengths = bucket_keys.get(k) if bucket_keys else None
      t = truncate_and_pad_tokenized_input(
          t, max_length=length, allowed_lengths=allowed_lengths
      )
      ar_inputs''')]
USES = ['stubs.py', 'exportenv.py']
DEMO = '''
import sys
import seqio
import tensorflow as tf
import exportenv

f = seqio.Feature(seqio.ByteVocabulary(), add_eos=True)
fn, _ = exportenv.export_lib.create_preprocessor(
    None, {'inputs': f, 'targets': f}, {'inputs': 4, 'targets': 4})
out = fn(tf.constant(['ab', 'abcdefg']))['encoder_input_tokens'].numpy().tolist()
print(out)
sys.exit(0 if out[0][2] == 1 and out[1][3] == 1 else 1)
'''
