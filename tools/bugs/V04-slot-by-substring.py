PROP = 'V04'
NEEDS = '''Expert parameters below a module whose name begins with m or v (such as "mlp").'''
BREAKS = '''Their weights count as optimizer slots, so they are not copied to the experts.'''
EDITS = [('t5x/contrib/moe/checkpoints.py', '''    m_or_v = param_name.endswith('/m') or param_name.endswith('/v')
''', '''    m_or_v = '/m' in param_name or '/v' in param_name
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys, asyncio, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
import jax, numpy as np
import tensorstore as ts
from jax.sharding import PartitionSpec as P
from t5x import checkpoints, partitioning
from t5x.contrib.moe import checkpoints as moe

mesh = jax.sharding.Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ("expert", "model"))
w = np.arange(6, dtype=np.float32).reshape(2, 3)


async def read(d, name):
  spec = {"driver": "zarr", "kvstore": {"driver": "file", "path": os.path.join(d, "w")},
          "metadata": {"shape": [2, 3], "dtype": "<f4", "chunks": [2, 3],
                       "compressor": {"id": "gzip"}}}
  t = await ts.open(spec, create=True, open=True)
  await t.write(w)
  spec["kvstore"]["path"] = "w"
  info = checkpoints._ParameterInfo(
      name=name, shape=(4, 2, 3), ts_spec=None, axes=None,
      local_chunk_info=partitioning.LocalChunkInfo(
          slice=(slice(None), slice(None), slice(None)), replica_id=0))
  return await moe._read_upcycle_ts(
      info, ts.Spec(spec), os.path.join(d, "checkpoint"), 4, mesh=mesh,
      axes=P("expert", None, "model"))

with tempfile.TemporaryDirectory() as d:
  try:
    got = np.asarray(asyncio.run(read(d, "target/encoder/layers_0/mlp/expert/wi/kernel")))
  except ValueError as e:
    print(e)
    sys.exit(1)
print(got.shape)
ok = got.shape == (4, 2, 3) and all((x == w).all() for x in got)
sys.exit(0 if ok else 1)
'''
