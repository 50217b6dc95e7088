"""M03: scores."""
from rules.common import *
from rules.m01 import ENC, DEC

SCORE = '''
def f(self, params, batch, return_intermediates):
  w = batch['decoder_loss_weights']
  t = batch['decoder_target_tokens']
  if return_intermediates:
    logits, new = self._compute_logits(params, batch, None,
                                       mutable=['intermediates'])
    out = flax_core.unfreeze(new.get('intermediates', {}))
    out.setdefault('decoder', {})
    out['decoder']['target_tokens'] = (t,)
    out['decoder']['loss_weights'] = (w,)
  else:
    logits = self._compute_logits(params, batch, None)
  score = -losses.cross_entropy_with_logits(
      logits, common_utils.onehot(t, logits.shape[-1], on_value=1, off_value=0),
      z_loss=0.0)[0] * w
  if return_intermediates:
    out['decoder']['token_scores'] = (score,)
    return score.sum(-1), out
  return score.sum(-1)
'''
XE = 't5x.losses.cross_entropy_with_logits'


def check(c):
  c.rule('M03.score', 'a score is the weighted log likelihood of the targets, '
         'without dropout or z-loss')
  c.rule('M03.kept', 'intermediates are those of the same forward pass, with '
         'targets, weights and scores')
  for cls in (ENC, DEC):
    q = cls + '.score_batch'
    own = cls.rsplit('.', 1)[1]
    for v in (False, True):
      reference(c, 'M03.kept' if v else 'M03.score', f'{own}, intermediates={v}',
                q, SCORE, 'likelihoods are wrong', opaque=(XE,), cls=cls,
                method=cls, args={'return_intermediates': const(v)})
    defaults(c, 'M03.score', q, return_intermediates=False)
