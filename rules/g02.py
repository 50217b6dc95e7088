"""G02: gin configurations name what exists."""
import glob
import os
import re

from rules.common import *
from sa.project import REPO

NAME = r'[A-Za-z_][\w.]*'
KEY = re.compile(rf'^((?:[\w.]+/)*)({NAME})$')
REF = re.compile(rf'(@|%)((?:[\w.]+/)*)({NAME})(\(\))?')


class Gin:
  """One gin file: its includes, imports, macros and bindings."""

  def __init__(self, path):
    self.rel = os.path.relpath(path, REPO)
    self.includes, self.imports = [], {}
    self.dynamic = False
    self.macros, self.bindings, self.refs = {}, [], []
    self.odd = []
    # in order: ('include', file), ('bind', scope, selector, parameter, value)
    # and ('macro', name, value)
    self.stmts = []
    block = None
    for line, s in logical(open(path).read()):
      body = s.strip()
      indented = s[:1] in ' \t'
      m = re.match(r'''include\s+['"](.*)['"]$''', body)
      if m:
        self.includes.append((line, m.group(1)))
        self.stmts.append(('include', m.group(1)))
        continue
      m = re.match(rf'import\s+({NAME})(?:\s+as\s+(\w+))?$', body)
      if m:
        self.imports[m.group(2) or m.group(1).split('.')[0]] = (
            line, m.group(1) if m.group(2) else m.group(1).split('.')[0],
            m.group(1))
        continue
      m = re.match(rf'from\s+({NAME})\s+import\s+(\w+)(?:\s+as\s+(\w+))?$', body)
      if m:
        if m.group(1) == '__gin__':
          self.dynamic = True
          continue
        d = f'{m.group(1)}.{m.group(2)}'
        self.imports[m.group(3) or m.group(2)] = (line, d, d)
        continue
      m = re.match(rf'((?:[\w.]+/)*)({NAME})\s*:$', body)
      if m and not indented:
        block, scope = m.group(2), m.group(1)
        self.bindings.append((line, block, None))
        continue
      k, eq, v = body.partition('=')
      k = k.strip()
      m = KEY.match(k)
      if not eq or not m:
        self.odd.append((line, body))
        continue
      for r in REF.finditer(unquoted(v)):
        self.refs.append((line, r.group(1), r.group(3), bool(r.group(4))))
      if indented and block:
        self.bindings.append((line, block, k))
        self.stmts.append(('bind', scope, block, k, v.strip()))
        continue
      block = None
      if '.' in m.group(2):
        sel, _, param = m.group(2).rpartition('.')
        self.bindings.append((line, sel, param))
        self.stmts.append(('bind', m.group(1), sel, param, v.strip()))
      else:
        self.macros[m.group(2)] = line
        self.stmts.append(('macro', m.group(2), v.strip()))


def unquoted(s):
  return re.sub(r"""'(?:[^'\\\\]|\\\\.)*'|"(?:[^"\\\\]|\\\\.)*\"""", "''", s)


def uncommented(s):
  q = None
  for i, ch in enumerate(s):
    if q:
      q = None if ch == q else q
    elif ch in '\'"':
      q = ch
    elif ch == '#':
      return s[:i]
  return s


def logical(src):
  """(line, statement) with continuation lines joined."""
  src = re.sub(r'("""|\'\'\')(?:.|\n)*?\1',
               lambda m: "''" + '\\\n' * m.group(0).count('\n'), src)
  out, cur, at, depth = [], '', 0, 0
  for i, raw in enumerate(src.split('\n'), 1):
    s = uncommented(raw).rstrip()
    if not cur:
      if not s.strip():
        continue
      at, cur = i, s
    else:
      cur += ' ' + s.strip()
    u = unquoted(s)
    depth += sum(u.count(x) for x in '([{') - sum(u.count(x) for x in ')]}')
    if cur.endswith('\\'):
      cur = cur[:-1]
      continue
    if depth <= 0 and not cur.rstrip().endswith('='):
      out.append((at, cur))
      cur, depth = '', 0
  return out


def configurable(p, dotted):
  """Parameters gin may bind: (names, any), None if unknown, False if absent."""
  t = p.resolve(dotted)
  if t is None:
    return False
  if t[0] == 'func' or t[0] == 'method':
    a = t[1].node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}, \
        a.kwarg is not None
  if t[0] != 'class':
    return None
  c = t[1]
  outside = any(len(p.base_classes(x)) != len(x.node.bases) for x in p.mro(c))
  f = p.find_method(c, '__init__')
  if f is None:
    if not c.fields and not p.class_fields(c):
      return None
    if outside and not module_like(p, c):
      return None
    return set(p.class_fields(c)) | {'name', 'parent'}, False
  a = f.node.args
  return {x.arg for x in a.args[1:] + a.kwonlyargs}, a.kwarg is not None


def same(p, dotted):
  t = p.resolve(dotted)
  return id(t[1].node) if t and t[0] in ('func', 'method', 'class') else dotted


def required(p, dotted):
  """Parameters without a default."""
  t = p.resolve(dotted)
  if t is None or t[0] not in ('func', 'method', 'class'):
    return set()
  f = t[1] if t[0] != 'class' else p.find_method(t[1], '__init__')
  if f is None:
    return {k for x in p.mro(t[1]) for k, v in dataclass_fields(x)
            if v is None} if module_like(p, t[1]) else set()
  a = f.node.args
  pos = a.posonlyargs + a.args
  out = pos[:len(pos) - len(a.defaults)]
  return {x.arg for x in (out[1:] if t[0] != 'func' else out)} | {
      x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}


def dataclass_fields(x):
  """(name, default) of the annotated assignments of a class body."""
  import ast
  if not x.node.decorator_list and not x.node.bases:
    return
  for n in x.node.body:
    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and \
        'ClassVar' not in ast.unparse(n.annotation):
      yield n.target.id, n.value


def module_like(p, c):
  """All bases outside the repository add no other fields."""
  import ast
  ok = ('nn.Module', 'Module', 'abc.ABC', 'Protocol', 'Generic', 'object',
        'linen.Module', 'typing.Protocol', 'typing_extensions.Protocol')
  for x in p.mro(c):
    inside = len(p.base_classes(x))
    names = [ast.unparse(b) for b in x.node.bases]
    if sum(1 for n in names if n.split('[')[0] in ok) + inside < len(names):
      return False
  return True


def check(c):
  c.rule('G02.include', 'files and modules that a configuration names exist')
  c.rule('G02.binding', 'what is configured exists and has the parameter')
  c.rule('G02.reference', 'what a value refers to exists')
  c.rule('G02.complete', 'what a configuration calls has what it requires')
  p = c.p
  files = {}
  for path in sorted(glob.glob(REPO + '/t5x/**/*.gin', recursive=True)):
    g = Gin(path)
    files[g.rel] = g
  c.need(files, 'gin configurations')
  closure = {}

  def below(rel, seen=()):
    out = [rel]
    for _, x in files[rel].includes:
      if x in files and x not in seen:
        out += below(x, seen + (rel,))
    return out
  for rel in files:
    closure[rel] = list(dict.fromkeys(below(rel)))
  above = {rel: [x for x in files if rel in closure[x]] for rel in files}
  # modules that may be run as a script
  mains = [m for m in p.modules if m.startswith('t5x.') and (
      m.count('.') == 1 or '__main__' in ''.join(ast_names(p, m)))]
  # those the user has to supply are mentioned in comments
  macros = {x for g in files.values() for x in g.macros} | {
      x for rel in files for line in open(os.path.join(REPO, rel))
      for x in re.findall(r'\w+', line.partition('#')[2])}

  def homes(rel, name):
    """Dotted names that `name`, used in the file, may stand for."""
    first, _, rest = name.partition('.')
    for where in (closure[rel], above[rel]):
      for x in where:
        g = files[x]
        if first in g.imports:
          d = g.imports[first][1]
          if d == '__main__':
            return [f'{m}.{rest}' for m in mains]
          return [d + ('.' + rest if rest else '')]
    return None

  given = {}

  def bound(rel, dotted):
    """Parameters of `dotted` bound by the file or what it includes."""
    out = set()
    for x in closure[rel]:
      if x not in given:
        given[x] = [(same(p, h), param) for _, sel, param in files[x].bindings
                    for h in homes(x, sel) or () if param]
      out |= {param for h, param in given[x] if h == same(p, dotted)}
    return out
  for rel, g in files.items():
    n = 0
    called_here = set()
    # the entry points, and what is made for them
    wanted = {sel: line for line, sel, param in g.bindings if param and
              (g.imports.get(sel.split('.')[0]) or ('', ''))[1] == '__main__'}
    for line, s in g.odd:
      c.ob('G02.include', f'{rel}: {s[:40]}', False, f'{rel}:{line}',
           'is no gin statement')
    for line, x in g.includes:
      if x.startswith('t5x/'):
        n += 1
        c.ob('G02.include', f'{rel}: {x}', x in files, f'{rel}:{line}',
             'there is no such file')
    for line, _, full in g.imports.values():
      if full.startswith('t5x.'):
        n += 1
        c.ob('G02.include', f'{rel}: {full}', p.resolve(full) is not None or
             os.path.isdir(os.path.join(REPO, full.replace('.', '/'))),
             f'{rel}:{line}', 'there is no such module')
    for line, sel, param in g.bindings:
      hs = homes(rel, sel)
      if hs is None or not any(h.startswith('t5x.') for h in hs):
        continue
      got = [configurable(p, h) for h in hs]
      n += 1
      ok = any(k is None or k and (param is None or param in k[0] or k[1])
               for k in got)
      c.ob('G02.binding', f'{rel}: {sel}' + (f'.{param}' if param else ''), ok,
           f'{rel}:{line}', 'there is no such parameter' if any(got) else
           'there is no such function or class')
    for line, kind, name, called in g.refs:
      if kind == '%':
        if name.startswith('gin.'):
          continue
        if '.' in name:
          continue
        n += 1
        c.ob('G02.reference', f'{rel}: %{name}', name in macros,
             f'{rel}:{line}', 'the macro is defined nowhere')
        continue
      hs = homes(rel, name)
      if hs is None or not any(h.startswith('t5x.') for h in hs):
        continue
      n += 1
      c.ob('G02.reference', f'{rel}: @{name}', any(
          p.resolve(h) is not None for h in hs), f'{rel}:{line}',
           'there is no such function or class')
      if called:
        wanted[name] = line
        called_here.add(name)
    for name, line in wanted.items():
      hs = homes(rel, name)
      for h in hs or ():
        need = required(p, h)
        if need:
          least = min((need - bound(x, h) for x in above[rel]), key=len)
          if name not in called_here and 2 * len(least) > len(need):
            continue  # overrides for what another file configures
          n += 1
          for x in sorted(least) or ['']:
            c.ob('G02.complete', f'{rel}: {name}({x})', not x,
                 f'{rel}:{line}', f'nothing gives its {x}')
    c.analysed[rel] = None


def ast_names(p, m):
  """Constants a module compares its __name__ with."""
  import ast
  for x in p.module(m).tree.body:
    if isinstance(x, ast.If) and '__name__' in ast.unparse(x.test):
      yield ast.unparse(x.test)
