"""Canonical dotted names for external APIs that have several spellings."""

_PREFIX = [
    ('tensorflow.compat.v2.', 'tensorflow.'),
    ('tensorflow.compat.v1.io.', 'tensorflow.io.'),
    ('tensorflow.compat.v1.gfile.', 'tensorflow.io.gfile.'),
    ('tensorflow.python.lib.io.', 'tensorflow.io.'),
    ('jax._src.numpy.', 'jax.numpy.'),
]

_EXACT = {
    'jax.tree_map': 'jax.tree.map',
    'jax.tree_util.tree_map': 'jax.tree.map',
    'jax.tree_multimap': 'jax.tree.map',
    'jax.tree_leaves': 'jax.tree.leaves',
    'jax.tree_util.tree_leaves': 'jax.tree.leaves',
    'jax.tree_flatten': 'jax.tree.flatten',
    'jax.tree_util.tree_flatten': 'jax.tree.flatten',
    'jax.tree_unflatten': 'jax.tree.unflatten',
    'jax.tree_util.tree_unflatten': 'jax.tree.unflatten',
    'jax.tree_util.tree_structure': 'jax.tree.structure',
    'jax.tree_util.tree_reduce': 'jax.tree.reduce',
    'jax.tree_util.tree_all': 'jax.tree.all',
    'jax.tree_util.tree_transpose': 'jax.tree.transpose',
    'jax.core.freeze': 'flax.core.freeze',
    'flax.core.frozen_dict.freeze': 'flax.core.freeze',
    'flax.core.frozen_dict.unfreeze': 'flax.core.unfreeze',
    'flax.core.frozen_dict.FrozenDict': 'flax.core.FrozenDict',
    'jax.nn.softmax': 'flax.linen.softmax',
    'jax.nn.relu': 'flax.linen.relu',
    'jax.nn.one_hot': 'flax.linen.one_hot',
    'jax.nn.log_softmax': 'flax.linen.log_softmax',
    'jax.nn.gelu': 'flax.linen.gelu',
    'flax.linen.activation.relu': 'flax.linen.relu',
    'tensorflow.io.gfile.GFile': 'tensorflow.io.gfile.GFile',
    'os.path.join': 'os.path.join',
    'tensorflow.io.gfile.join': 'os.path.join',
    'numpy.product': 'numpy.prod',
    'jax.numpy.DeviceArray': 'jax.Array',
    'typing.cast': 'typing.cast',
    'jax.random.KeyArray': 'jax.Array',
}


def name(n: str) -> str:
  for p, q in _PREFIX:
    if n.startswith(p):
      n = q + n[len(p):]
  return _EXACT.get(n, n)


# Positional parameter names of external callables, used so that positional and
# keyword spellings of the same call give the same term.  Kept to the APIs the
# rules read arguments from.
SIGS = {
    'jax.random.split': ['key', 'num'],
    'jax.random.fold_in': ['key', 'data'],
    'jax.random.categorical': ['key', 'logits', 'axis', 'shape'],
    'jax.random.PRNGKey': ['seed'],
    'jax.lax.while_loop': ['cond_fun', 'body_fun', 'init_val'],
    'jax.lax.fori_loop': ['lower', 'upper', 'body_fun', 'init_val'],
    'jax.lax.scan': ['f', 'init', 'xs', 'length'],
    'jax.lax.cond': ['pred', 'true_fun', 'false_fun'],
    'jax.lax.top_k': ['operand', 'k'],
    'jax.lax.dynamic_slice_in_dim': ['operand', 'start_index', 'slice_size',
                                     'axis'],
    'jax.lax.dynamic_index_in_dim': ['operand', 'index', 'axis', 'keepdims'],
    'jax.lax.dynamic_update_slice': ['operand', 'update', 'start_indices'],
    'jax.lax.dynamic_slice': ['operand', 'start_indices', 'slice_sizes'],
    'jax.lax.dynamic_update_slice_in_dim': ['operand', 'update', 'start_index',
                                            'axis'],
    'jax.lax.select': ['pred', 'on_true', 'on_false'],
    'jax.numpy.where': ['condition', 'x', 'y'],
    'jax.numpy.take_along_axis': ['arr', 'indices', 'axis'],
    'jax.numpy.argsort': ['a', 'axis'],
    'jax.numpy.sum': ['a', 'axis'],
    'jax.numpy.mean': ['a', 'axis'],
    'jax.numpy.max': ['a', 'axis'],
    'jax.numpy.min': ['a', 'axis'],
    'jax.numpy.argmax': ['a', 'axis'],
    'jax.numpy.expand_dims': ['a', 'axis'],
    'jax.numpy.squeeze': ['a', 'axis'],
    'jax.numpy.concatenate': ['arrays', 'axis'],
    'jax.numpy.zeros': ['shape', 'dtype'],
    'jax.numpy.ones': ['shape', 'dtype'],
    'jax.numpy.full': ['shape', 'fill_value', 'dtype'],
    'jax.numpy.reshape': ['a', 'shape'],
    'jax.numpy.clip': ['a', 'min', 'max'],
    'jax.numpy.broadcast_to': ['array', 'shape'],
    'jax.numpy.repeat': ['a', 'repeats', 'axis'],
    'jax.numpy.pad': ['array', 'pad_width', 'mode'],
    'jax.numpy.any': ['a', 'axis'],
    'jax.numpy.all': ['a', 'axis'],
    'jax.jit': ['fun'],
    'jax.value_and_grad': ['fun', 'argnums', 'has_aux'],
    'tensorflow.io.gfile.rename': ['src', 'dst', 'overwrite'],
    'jax.experimental.multihost_utils.sync_global_devices': ['name'],
    'jax.experimental.multihost_utils.broadcast_one_to_all': ['in_tree',
                                                              'is_source'],
    'jax.experimental.multihost_utils.assert_equal': ['in_tree',
                                                      'fail_message'],
    'jax.experimental.multihost_utils.process_allgather': ['in_tree', 'tiled'],
}
