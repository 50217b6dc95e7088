"""Makes t5x modules importable without airio/jestimator/t5 (not installed here)."""
import importlib.machinery, os, sys, types


class _Any:
  def __init__(self, *a, **k): pass
  def __getattr__(self, n):
    if n.startswith('__'): raise AttributeError(n)
    return _Any()
  def __call__(self, *a, **k): return _Any()
  def __or__(self, o): return _Any
  def __mro_entries__(self, bases): return (object,)


class _Mod(types.ModuleType):
  __path__ = []
  def __getattr__(self, n):
    if n.startswith('__'): raise AttributeError(n)
    return type(n, (), {'__init__': lambda self, *a, **k: None})


class _Finder:
  roots = ('airio', 'jestimator', 't5')
  def find_spec(self, name, path=None, target=None):
    if name.split('.')[0] in self.roots:
      return importlib.machinery.ModuleSpec(name, self, is_package=True)
  def create_module(self, spec): return _Mod(spec.name)
  def exec_module(self, m): pass


def _compat():
  import jax, jax.experimental.pjit as p, jax.sharding
  if not hasattr(p, 'PartitionSpec'):
    p.PartitionSpec = jax.sharding.PartitionSpec
  for n in ('pxla',):
    pass


def install(repo='.'):
  _compat()
  repo = os.path.abspath(repo)
  sys.path[:0] = [repo]
  sys.meta_path.append(_Finder())
  # the package __init__ imports everything; load submodules lazily instead
  m = types.ModuleType('t5x')
  m.__path__ = [os.path.join(repo, 't5x')]
  m.__spec__ = importlib.machinery.ModuleSpec('t5x', None, is_package=True)
  m.__spec__.submodule_search_locations = m.__path__
  sys.modules['t5x'] = m
