"""G03: fiddle configurations are the jobs of the gin configurations."""
import ast
import os
import re

from rules.common import *
from rules.g02 import Gin
from sa.project import REPO

F = 't5x.fiddle_configs.'
E = 't5x/examples/t5/t5_1_1/'
# function of a fiddle configuration, or its source; what the gin file builds
JOBS = (
    (F + 'configs.pretrain', 'train', 't5x/configs/runs/pretrain.gin', 'train'),
    (F + 'configs.finetune', 'train', 't5x/configs/runs/finetune.gin', 'train'),
    (F + 'models.t5_1_1', '''
def f(dropout_rate):
  return model(base_config(dropout_rate))
''', E + 'base.gin', 'MODEL'),
    (F + 'models.t5_1_1', '''
def f(dropout_rate):
  return model(small_config(dropout_rate))
''', E + 'small.gin', 'MODEL'),
    (F + 'examples.t5_1_1', 'small_wmt_finetune',
     E + 'examples/small_wmt_finetune.gin', 'train'),
    (F + 'examples.t5_1_1', 'small_c4_pretrain',
     E + 'examples/small_c4_pretrain.gin', 'train'),
)
MAIN = 't5x.train'
# what differs between the two by design
ALIKE = {('t5x.config_utils.summarize_fiddle_config',
          't5x.gin_utils.summarize_gin_config')}
NAMES = {'relative_steps': 'train_steps_relative'}


class Job:
  """What a gin file, with what it includes, configures."""

  def __init__(self, p, rel):
    self.p = p
    self.imports, self.macros, self.bound = {}, {}, {}
    self.read(rel)

  def read(self, rel):
    g = Gin(os.path.join(REPO, rel))
    mine = {k: v[1] for k, v in g.imports.items()}
    self.imports.update(mine)
    for s in g.stmts:
      if s[0] == 'include':
        self.read(s[1])
      elif s[0] == 'macro':
        self.macros[s[1]] = s[2]
      else:
        _, scope, sel, param, v = s
        d = self.target(sel)
        self.bound.setdefault((scope.strip('/'), d), {})[param] = v

  def target(self, name):
    first, _, rest = name.partition('.')
    d = self.imports.get(first)
    d = MAIN if d == '__main__' else d or first
    return known(self.p, d + ('.' + rest if rest else ''))

  def node(self, name, called=True, scope=''):
    outer, _, sel = name.rpartition('/')
    scope = outer or scope
    d = self.target(sel)
    ps = dict(self.bound.get(('', d), {}))
    if scope:
      ps.update(self.bound.get((scope, d), {}))
    return ('node', d, called,
            {k: self.value(v, scope) for k, v in ps.items()})

  def macro(self, name, scope):
    v = self.macros.get(name)
    if v is None or v == '%gin.REQUIRED':
      return ('given', name.lower(), None)
    return ('macro', name.lower(), self.value(v, scope))

  def value(self, text, scope):
    made = []

    def put(m):
      kind, s, n, call = m.groups()
      made.append(('m', n) if kind == '%' else ('n', s + n, bool(call)))
      return f'_made[{len(made) - 1}]'
    parts = re.split(r'''('(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")''', text)
    for i in range(0, len(parts), 2):
      parts[i] = re.sub(r'(@|%)((?:[\w.]+/)*)([\w.]+)(\(\))?', put, parts[i])
    x = ast.parse(''.join(parts), mode='eval').body

    def conv(x):
      if isinstance(x, ast.Subscript):
        m = made[x.slice.value]
        return self.macro(m[1], scope) if m[0] == 'm' else self.node(
            m[1], m[2], scope)
      return literal(x, conv)
    return conv(x)


def literal(x, conv):
  if isinstance(x, (ast.List, ast.Tuple)):
    return ('seq', [conv(y) for y in x.elts])
  if isinstance(x, ast.Dict):
    return ('map', {ast.literal_eval(k): conv(v)
                    for k, v in zip(x.keys, x.values)})
  try:
    return ('const', ast.literal_eval(x))
  except ValueError:
    return ('other', ast.unparse(x))


def known(p, d):
  t = p.resolve(d)
  if t and t[0] in ('func', 'method', 'class'):
    return t[1].qual
  return d


def fiddle(p, t, params):
  """The tree of a fiddle configuration, from its term."""
  def conv(t):
    if not isinstance(t, T):
      return ('const', t)
    if t.op == 'const':
      return ('const', t.args[0])
    if t.op == 'sym':
      return ('given', t.args[0], params.get(t.args[0]))
    if t.op in ('list', 'tuple'):
      return ('seq', [conv(x) for x in t.args])
    if t.op == 'dict':
      return ('map', {k.args[0]: conv(v) for k, v in t.args
                      if k.op == 'const'})
    if t.op == 'ref':
      return ('node', known(p, t.args[0]), False, {})
    if t.op == 'call' and t.args[0].op == 'ref' and t.args[1]:
      f = t.args[0].args[0].rpartition('.')[2]
      kw = {k: conv(v) for k, v in t.args[2]}
      first = t.args[1][0]
      if f in ('Config', 'ArgFactory', 'Partial') and len(t.args[1]) == 1 and \
          first.op == 'ref':
        return ('node', known(p, first.args[0]), f != 'Partial', kw)
      if f == 'copy_with':
        x = conv(first)
        if x[0] == 'node':
          return x[:3] + ({**x[3], **kw},)
    return ('other', repr(t)[:80])
  return conv(t)


def default(p, d, name):
  """The default of a parameter or field, as a tree, or None."""
  t = p.resolve(d)
  if not t or t[0] not in ('func', 'method', 'class'):
    return None
  if t[0] == 'class':
    for k in p.mro(t[1]):
      for n in k.node.body:
        if isinstance(n, ast.AnnAssign) and n.value is not None and \
            isinstance(n.target, ast.Name) and n.target.id == name:
          return literal(n.value, lambda y: literal(y, lambda z: ('other', '')))
  f = t[1] if t[0] != 'class' else p.find_method(t[1], '__init__')
  if f is None:
    return None
  a = f.node.args
  pos = a.posonlyargs + a.args
  ds = [*zip(pos[len(pos) - len(a.defaults):], a.defaults),
        *zip(a.kwonlyargs, a.kw_defaults)]
  for x, v in ds:
    if x.arg == name and v is not None:
      return literal(v, lambda y: ('other', ''))
  return None


def compare(p, a, b, at='', own=()):
  """(path, equal, text) of every value of trees a (fiddle) and b (gin)."""
  if a is None or b is None:
    yield at, a is b, 'only one of them gives it'
    return
  if a[0] == 'given':
    name = NAMES.get(a[1], a[1])
    if b[0] in ('given', 'macro'):
      yield at, name == b[1], f'{a[1]} where gin has {b[1]}'
      if b[0] == 'macro':
        yield f'default of {a[1]}', a[2] == b[2], f'{a[2]}, in gin {b[2]}'
    else:
      yield at, at.rpartition('.')[2] == a[1] and a[2] == b, \
          f'{a[1]}, in gin {b}'
    return
  if b[0] == 'macro':
    if b[1] in own:
      yield f'{at} as asked', False, f'{a}, whatever {b[1]} is'
    b = b[2]
  if b[0] == 'given':
    # to be set by the user in either, unless the job says
    yield at, a == ('const', None), f'{a}, in gin {b[1]}'
    return
  if a[0] == b[0] == 'node':
    if a[2] == b[2] and (a[1], b[1]) in ALIKE:
      return
    yield at + ' built', a[1:3] == b[1:3], f'{a[1]}, in gin {b[1]}'
    for k in sorted(set(a[3]) | set(b[3])):
      x, y = [z[3].get(k) or default(p, a[1], k) for z in (a, b)]
      yield from compare(p, x, y, f'{at}.{k}', own)
    return
  if a[0] == b[0] == 'seq' and len(a[1]) == len(b[1]):
    for i, (x, y) in enumerate(zip(a[1], b[1])):
      yield from compare(p, x, y, f'{at}[{i}]', own)
    if not a[1]:
      yield at, True, ''
    return
  if a[0] == b[0] == 'map' and set(a[1]) == set(b[1]):
    for k in a[1]:
      yield from compare(p, a[1][k], b[1][k], f'{at}[{k!r}]', own)
    return
  yield at, a == b and a[0] != 'other', f'{a}, in gin {b}'


def check(c):
  c.rule('G03.same', 'a fiddle configuration gives every part of the job what '
         'the gin configuration gives it')
  p = c.p
  every = tuple(m for m in p.modules if m.startswith(F))
  for module, fn, rel, root in JOBS:
    inline = tuple(f'{m}.{n}' for m in every
                 for n, v in p.module(m).names.items() if v[0] == 'func')
    params, own = {}, set()
    if fn.startswith('\n'):
      r = c.run_src(fn, 'f', module, inline=inline)
      q = module
    else:
      q = f'{module}.{fn}'
      r = c.run(q, inline=inline)
      a = c.func(q).node.args
      pos = a.posonlyargs + a.args
      own = {NAMES.get(x.arg, x.arg) for x in pos + a.kwonlyargs}
      for x, v in [*zip(pos[len(pos) - len(a.defaults):], a.defaults),
                   *zip(a.kwonlyargs, a.kw_defaults)]:
        if v is not None:
          params[x.arg] = constant(p, module, v)
    g = Job(p, rel)
    want = g.node(g_main(g), True) if root == 'train' else g.macro(root, '')[2]
    got = fiddle(p, r.ret, params)
    c.need(got[0] == 'node', f'{q} is a configuration')
    for at, ok, text in compare(p, got, want, '', own):
      c.ob('G03.same', f'{rel}: {at.strip(".") or "job"}', ok, q, text)


def g_main(g):
  return next(k for k, v in g.imports.items() if v == '__main__') + '.train'


def constant(p, module, v):
  """A default, through the constants of the module."""
  if isinstance(v, ast.Name):
    t = p.resolve(f'{module}.{v.id}')
    if t and t[0] == 'assign':
      return literal(t[1][1], lambda y: ('other', ''))
  return literal(v, lambda y: ('other', ''))
