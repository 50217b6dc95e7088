"""A tiny train state and partitioner, enough to save and restore for real."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import dataclasses
import jax, jax.numpy as jnp, numpy as np
from flax import struct, serialization
from jax.sharding import PartitionSpec as P
from t5x import checkpoints, partitioning


class State:
  """step + one parameter + one optimizer slot."""
  def __init__(self, d): self._d = d
  @property
  def step(self): return self._d['state']['step']
  def state_dict(self): return self._d
  def restore_state(self, d): return State(d)


def make_state(step, w=None, dtype=np.float32):
  w = np.arange(6, dtype=dtype).reshape(2, 3) if w is None else w
  return State({'target': {'w': w, 'b': np.ones((3,), dtype)},
                'state': {'step': np.int32(step),
                          'param_states': {'w': {'v': w * 2}, 'b': {'v': np.ones((3,), dtype)}}}})


class Layout:
  shard_id = 0
  num_shards = 1
  is_first_host_in_replica_set = True


class Partitioner:
  params_on_devices = False
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:1]), ('data',))
  def get_data_layout(self, *a, **k): return Layout()
  def get_mesh_axes(self, ts):
    return State(jax.tree_util.tree_map(lambda x: None if np.ndim(x) == 0 else P(*[None] * np.ndim(x)), ts.state_dict()))
  def get_local_chunk_info(self, shape, axes):
    return partitioning.LocalChunkInfo(slice=tuple(slice(None) for _ in shape), replica_id=0)
  def move_params_to_devices(self, s, axes): return s
