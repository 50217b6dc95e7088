"""V02: MoE models train on their losses, with gradients of experts rescaled."""
import ast

from rules.common import *
from rules.a01 import names

M = 't5x.contrib.moe.models.'
LOSS = '''
def f(batch, logits, state, label_smoothing, z_loss, loss_normalizing_factor,
      aux_loss_factor, router_z_loss_factor):
  n, weights = losses.get_loss_normalizing_factor_and_weights(
      loss_normalizing_factor, batch)
  targets = batch['decoder_target_tokens']
  total, zl, _ = losses.compute_weighted_cross_entropy(
      logits, targets=targets, weights=weights, label_smoothing=label_smoothing,
      z_loss=z_loss, loss_normalizing_factor=n)
  found = _extract_diversity_metrics(state)
  aux, router = _expert_losses(found, aux_loss_factor, router_z_loss_factor)
  total = total + (aux + router)
  out = base_models.compute_base_metrics(
      logits=logits, targets=targets, mask=weights, loss=total, z_loss=zl)
  out.update(_expert_metrics(found, total, zl, aux, router,
                             num_tokens=targets.size))
  return total, out
'''
DIVERSITY = '''
def f(state):
  flat = traverse_util.flatten_dict(flax_core.unfreeze(state))
  out = {}
  for m in MOE_METRICS:
    total = 0.0
    n = 0
    for path, v in flat.items():
      if path[-1] == m:
        total += jnp.asarray(v, dtype=jnp.float32)
        n += 1
    if n == 0:
      raise ValueError('')
    out[m] = total / n
  return out
'''
EXPERT = '''
def f(diversity_metrics, auxiliary_loss_factor, router_z_loss_factor):
  return (auxiliary_loss_factor * diversity_metrics['auxiliary_loss'].mean(),
          router_z_loss_factor * diversity_metrics['router_z_loss'].mean())
'''
METRICS = '''
def f(diversity_metrics, total_loss, z_loss, auxiliary_loss, router_z_loss,
      num_tokens):
  ce = total_loss - z_loss - auxiliary_loss - router_z_loss
  d = diversity_metrics
  return {
      'experts/auxiliary_loss': AveragePerStep.from_model_output(auxiliary_loss),
      'experts/router_z_loss': AveragePerStep.from_model_output(router_z_loss),
      'experts/fraction_tokens_left_behind': AveragePerStep.from_model_output(
          d['fraction_tokens_left_behind'].mean()),
      'experts/expert_usage': AveragePerStep.from_model_output(
          d['expert_usage'].mean()),
      'experts/router_confidence': AveragePerStep.from_model_output(
          d['router_confidence'].mean()),
      'cross_ent_loss': metrics_lib.AveragePerStep(total=ce),
      'cross_ent_loss_per_all_target_tokens': clu_metrics.Average(
          total=jnp.sum(ce), count=num_tokens)}
'''
FN = '''
def f(self, params, batch, dropout_rng):
  logits, state = self._compute_logits(
      params=params, batch=batch, dropout_rng=dropout_rng,
      mutable=['intermediates'])
  return _moe_loss_fn(
      batch, logits, state, self._label_smoothing, self._z_loss,
      self._loss_normalizing_factor, self.{aux_loss_factor},
      self.{router_z_loss_factor})
'''
U = 't5x.contrib.moe.training_utils.'
SCALE = '''
def f(grads, sharded_match_fn, scale_factor):
  if not sharded_match_fn:
    return grads
  named, tree = _tree_flatten_with_names(grads)
  return tree.unflatten([g * scale_factor if sharded_match_fn(k) else g
                         for k, g in named])
'''
T = 't5x.contrib.moe.trainer.MoeTrainer'
TRAINER = '''
def f(self):
  def step(state, batch):
    grads, metrics, mutables = trainer.accumulate_grads_microbatched(
        self._model, state, batch, self._get_step_rng(step=state.step),
        self._num_microbatches, data_partition_spec=self.data_partition_spec)
    scaled = training_utils.scale_sharded_grads(
        grads, self.{sharded_match_fn},
        scale_factor=self.{num_expert_partitions})
    return trainer.apply_grads(
        state, scaled, metrics, self._learning_rate_fn(state.step),
        self._weight_metrics_computer,
        other_state_variables=(
            {{'flax_mutables': mutables}} if mutables else None))
  return self._partitioner.partition(
      step, in_axis_resources=(self._train_state_axes, self.data_partition_spec),
      out_axis_resources=(self._train_state_axes, None), donate_argnums=(0,))
'''
BASES = (('MoeEncoderDecoderModel', 'EncoderDecoderModel'),
         ('MoeDecoderOnlyModel', 'DecoderOnlyModel'))


def kept(c, cls, *params):
  """Attributes in which the constructor keeps parameters."""
  r = c.run(cls + '.__init__', cls=cls)
  out = {}
  for n in params:
    k = [a[1] for a, v in r.state.heap.items()
         if a[0] is sym('self') and v is sym(n)]
    c.need(len(k) == 1, f'the attribute of {n} in {cls}')
    out[n] = k[0]
  return out


def as_base(c, rule, cls, base, msg, opaque=()):
  """The constructor sets up all that the one of the base class does."""
  from sa import same as sm
  q = cls + '.__init__'
  own = set(c.func(q).params())
  args = c.func(base + '.__init__').node.args
  names_ = [x.arg for x in args.args]
  given = {}
  for x, d in zip(names_[::-1], args.defaults[::-1]):
    if x not in own:
      given[x] = c.run_src('def g():\n  return ' + ast.unparse(d), 'g',
                           module=base.rsplit('.', 1)[0]).ret
  r = c.run(q, cls=cls, opaque=opaque)
  s = c.run(base + '.__init__', cls=base, args=given, opaque=opaque)
  a = dict((k[1], v) for k, v in r.state.heap.items() if k[0] is sym('self'))
  n = 0
  for (o, k), v in s.state.heap.items():
    if o is not sym('self') or (v.op == 'call' and not any(
        x.op == 'sym' for x in subterms(v))):
      continue
    n += 1
    c.ob(rule, f'{cls.rsplit(".", 1)[1]}: {k}', k in a and sm.same(a[k], v), q,
         msg)
  c.need(n >= 5, f'what {base} sets up')


def check(c):
  from sa import same as sm
  c.rule('V02.loss', 'the loss is the cross entropy plus the mean auxiliary and '
         'router losses of the layers, times their factors')
  c.rule('V02.metrics', 'metrics report each loss without the others')
  c.rule('V02.model', 'otherwise the models are the usual ones')
  c.rule('V02.step', 'a step is the usual one with the gradients of experts '
         'times the number of expert partitions')
  O = names(c, M)

  def ref(rule, n, src, msg):
    reference(c, rule, n, M + n, src, msg,
              opaque=tuple(o for o in O if o != M + n))
  ref('V02.loss', '_moe_loss_fn', LOSS, 'another loss is trained on')
  ref('V02.loss', '_extract_diversity_metrics', DIVERSITY,
      'layers are left out or counted twice')
  ref('V02.loss', '_expert_losses', EXPERT, 'another loss is trained on')
  ref('V02.metrics', '_expert_metrics', METRICS, 'metrics report other losses')
  m = c.p.resolve(M + 'MOE_METRICS')
  have = ast.literal_eval(m[1][1]) if m and m[0] == 'assign' else ()
  c.ob('V02.metrics', 'which', sorted(have) == [
      'auxiliary_loss', 'expert_usage', 'fraction_tokens_left_behind',
      'router_confidence', 'router_z_loss'], M + 'MOE_METRICS', 'others')
  for n, b in BASES:
    cls, base = M + n, 't5x.models.' + b
    f = kept(c, cls, 'aux_loss_factor', 'router_z_loss_factor')
    q = cls + '.loss_fn'
    reference(c, 'V02.loss', f'{n}.loss_fn', q, FN.format(**f),
              'another loss is trained on', cls=cls, method=cls,
              opaque=(cls + '._compute_logits', base + '._compute_logits',
                      M + '_moe_loss_fn'))
    as_base(c, 'V02.model', cls, base, 'the configuration is lost')
    defaults(c, 'V02.model', cls + '.__init__', feature_converter_cls=None,
             label_smoothing=0.0, z_loss=0.0, loss_normalizing_factor=None,
             aux_loss_factor=0.0, router_z_loss_factor=0.0)
    q = cls + '.predict_batch_with_aux'
    r = c.run(q, cls=cls)
    s = c.run(base + '.predict_batch_with_aux', cls=base,
              opaque=[x for x in names(c, 't5x.models.') if x.count('.') == 2])
    c.ob('V02.model', f'{n}.predict_batch_with_aux', sm.same_result(r, s), q,
         'predictions are made otherwise')
    defaults(c, 'V02.model', q, rng=None, decoder_params=None,
             return_all_decodes=False, num_decodes=1)
  reference(c, 'V02.step', 'scale_sharded_grads', U + 'scale_sharded_grads', SCALE,
            'gradients of other parameters are scaled',
            opaque=(U + '_tree_flatten_with_names',))
  f = kept(c, T, 'num_expert_partitions', 'sharded_match_fn')
  q = T + '._partitioned_train_step'
  src = TRAINER.format(**f)
  pair = src.replace('return trainer.apply_grads', 'new, out = trainer.apply_grads'
                     ).replace('mutables else None))\n',
                               'mutables else None))\n    return new, out\n')
  O = ('t5x.trainer.BaseTrainer._get_step_rng',)
  ok = False
  for text in (src, pair):
    r, s = reference_runs(c, q, text, cls=T, method=T, opaque=O)
    ok = ok or sm.same_result(r, s)
  c.ob('V02.step', '_partitioned_train_step', ok, q, 'a step trains otherwise')
  as_base(c, 'V02.step', T, 't5x.trainer.Trainer', 'the configuration is lost')
  r = c.run(T + '.__init__', cls=T)
  v = [v for k, v in r.state.heap.items() if k == (sym('self'),
                                                   'data_partition_spec')]
  c.ob('V02.step', 'data_partition_spec', v == [
      attr(sym('partitioner'), 'data_partition_spec')], T + '.__init__',
       'batches are split otherwise')
  a = c.func(T + '.__init__').node.args
  d = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
  s = c.run_src('def g():\n  return ' + ast.unparse(d['sharded_match_fn']), 'g',
                module=T.rsplit('.', 1)[0], opaque=(U + 'match_fn',))
  w = c.run_src('def g():\n  return training_utils.match_fn(r".*expert.*")',
                'g', module=T.rsplit('.', 1)[0], opaque=(U + 'match_fn',))
  c.ob('V02.step', 'which parameters', sm.same(s.ret, w.ret), T + '.__init__',
       'gradients of other parameters are scaled')
