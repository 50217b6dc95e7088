PROP = 'P01'
NEEDS = 'Tiling by hosts with a submesh smaller than a host, fewer hosts than host-local devices along one dimension, and several hosts along another.'
BREAKS = 'The data axis mixes devices of different hosts: the chunk of a host is no longer contiguous, and hosts feed data of others.'
EDITS = [('t5x/partitioning.py', '''        return (d // (l // m), l // m, 1, m)
''', '''        return (l // m, d // (l // m), 1, m)
''')]
USES = ['stubs.py']
DEMO = '''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install(os.getcwd())
from t5x import partitioning

class Dev:
  def __init__(self, host, i, j):
    hx, hy = divmod(host, 2)
    self.coords, self.core_on_chip = (hx * 4 + i, hy * 2 + j, 0), 0
    self.process_index, self.id = host, host * 8 + 2 * i + j

class Mesh:
  def __init__(self, devices, names):
    self.devices, self.axis_names = devices, names
    self.shape = dict(zip(names, devices.shape))

partitioning.Mesh = Mesh
devs = [Dev(h, i, j) for h in range(4) for i in range(4) for j in range(2)]
m = partitioning.get_mesh((1, 1, 1, 1), input_devices=devs, input_local_devices=devs[:8])
hosts = [d.process_index for d in m.devices[:, 0]]
ids = [d.id for d in m.devices[:, 0]]
# every device once, and the devices of a host next to each other
ok = sorted(ids) == list(range(32)) and all(
    len(set(hosts[i:i + 8])) == 1 for i in range(0, 32, 8))
os._exit(0 if ok else 1)
'''
