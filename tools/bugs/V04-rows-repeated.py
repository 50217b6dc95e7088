PROP = 'V04'
NEEDS = '''Upcycling dense MLP weights to several experts.'''
BREAKS = '''Rows are repeated, not matrices: experts get scrambled weights of the right shape.'''
EDITS = [('t5x/contrib/moe/checkpoints.py', '''        return np.repeat(arr_slice[None], num_experts, axis=0)
''', '''        return np.repeat(arr_slice, num_experts, axis=0).reshape(
            (num_experts,) + arr_slice.shape
        )
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, asyncio, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, numpy as np
import tensorstore as ts
from jax.sharding import PartitionSpec as P
from t5x import checkpoints, partitioning
from t5x.contrib.moe import checkpoints as moe

mesh = jax.sharding.Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ("expert", "model"))
w = np.arange(6, dtype=np.float32).reshape(2, 3)


async def read(d, name):
  spec = {"driver": "zarr", "kvstore": {"driver": "file", "path": os.path.join(d, "w")},
          "metadata": {"shape": [2, 3], "dtype": "<f4", "chunks": [2, 3],
                       "compressor": {"id": "gzip"}}}
  t = await ts.open(spec, create=True, open=True)
  await t.write(w)
  spec["kvstore"]["path"] = "w"
  info = checkpoints._ParameterInfo(
      name=name, shape=(4, 2, 3), ts_spec=None, axes=None,
      local_chunk_info=partitioning.LocalChunkInfo(
          slice=(slice(None), slice(None), slice(None)), replica_id=0))
  return await moe._read_upcycle_ts(
      info, ts.Spec(spec), os.path.join(d, "checkpoint"), 4, mesh=mesh,
      axes=P("expert", None, "model"))

with tempfile.TemporaryDirectory() as d:
  try:
    got = np.asarray(asyncio.run(read(d, "target/encoder/layers_0/expert/wi/kernel")))
  except ValueError as e:
    print(e)
    sys.exit(1)
print(got.shape)
ok = got.shape == (4, 2, 3) and all((x == w).all() for x in got)
sys.exit(0 if ok else 1)
'''
