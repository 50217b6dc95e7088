"""Mutation survey: which small edits of a function does no check notice?

python3 tools/mutate.py PROP[,PROP] QUAL [QUAL ...]   (QUAL may be a class or
module) prints the surviving mutants.
"""
import ast
import copy
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
         'argmax': 'argmin', 'argmin': 'argmax', 'zeros': 'ones',
         'ones': 'zeros', 'zeros_like': 'ones_like', 'ones_like': 'zeros_like',
         'logical_and': 'logical_or', 'logical_or': 'logical_and',
         'minimum': 'maximum', 'maximum': 'minimum', 'floor': 'ceil',
         'sum': 'mean', 'mean': 'sum', 'save': 'load', 'load': 'save',
         'append': 'insert', 'flip': 'array', 'exp': 'log', 'log': 'exp',
         'less': 'greater', 'greater': 'less', 'less_equal': 'less',
         'log_softmax': 'softmax', 'transpose': 'array'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}


def is_log(n):
  s = ast.unparse(n)
  return s.startswith(('logging.', 'print(', 'del ')) or 'pytype' in s


def sites(fn):
  """(description, apply(fn_copy_node)) for every mutation of fn."""
  nodes = list(ast.walk(fn))
  skip = set()
  for i, n in enumerate(nodes):
    if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or
                                    is_log(n)):
      skip.update(id(x) for x in ast.walk(n))
    if isinstance(n, ast.Raise):
      skip.update(id(x) for x in ast.walk(n) if x is not n)
    if isinstance(n, ast.JoinedStr):
      skip.update(id(x) for x in ast.walk(n))
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for a in ([n.returns] if n.returns else []) + [
          p.annotation for p in n.args.args + n.args.kwonlyargs + n.args.
          posonlyargs if p.annotation]:
        skip.update(id(x) for x in ast.walk(a))
    if isinstance(n, ast.AnnAssign):
      skip.update(id(x) for x in ast.walk(n.annotation))
  for i, n in enumerate(nodes):
    if id(n) in skip:
      continue
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
      yield i, 'negate test', lambda m: setattr(
          m, 'test', ast.UnaryOp(ast.Not(), m.test))
    if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
      yield i, 'compare', lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]())
    if isinstance(n, ast.BoolOp):
      yield i, 'and/or', lambda m: setattr(m, 'op', ast.Or() if isinstance(
          m.op, ast.And) else ast.And())
      for k in range(len(n.values)):
        yield i, f'drop operand {k}', lambda m, k=k: m.values.__setitem__(
            k, ast.Constant(isinstance(m.op, ast.And)))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
      yield i, 'operator', lambda m: setattr(m, 'op', BIN[type(m.op)]())
    if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
      yield i, 'operator', lambda m: setattr(m, 'op', BIN[type(m.op)]())
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
      yield i, 'drop unary', lambda m: setattr(m, 'op', ast.UAdd() if isinstance(
          m.op, ast.USub) else m.op) or isinstance(m.op, ast.Not) and setattr(
              m, 'operand', ast.UnaryOp(ast.Not(), m.operand))
    if isinstance(n, ast.Constant):
      if isinstance(n.value, bool):
        yield i, 'flip bool', lambda m: setattr(m, 'value', not m.value)
      elif isinstance(n.value, (int, float)):
        yield i, 'number+1', lambda m: setattr(m, 'value', m.value + 1)
      elif isinstance(n.value, str):
        yield i, 'string', lambda m: setattr(m, 'value', m.value + 'X')
    if isinstance(n, ast.Call):
      if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                      for a in n.args[:2]):
        yield i, 'swap args', lambda m: m.args.__setitem__(
            slice(0, 2), [m.args[1], m.args[0]])
      for k in range(len(n.keywords)):
        yield i, f'drop keyword {n.keywords[k].arg}', lambda m, k=k: \
            m.keywords.pop(k)
      f = n.func
      nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
      if nm in NAMES:
        def ren(m):
          if isinstance(m.func, ast.Attribute):
            m.func.attr = NAMES[m.func.attr]
          else:
            m.func.id = NAMES[m.func.id]
        yield i, 'callee', ren
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                      ast.Break, ast.Continue, ast.Assert, ast.Delete)) and n \
        is not fn:
      if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
        pass
      yield i, 'delete statement', 'DEL'
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
      if n.slice.lower is not None:
        yield i, 'drop lower', lambda m: setattr(m.slice, 'lower', None)
      if n.slice.upper is not None:
        yield i, 'drop upper', lambda m: setattr(m.slice, 'upper', None)


def mutants(src, lo, hi):
  tree = ast.parse(src)
  fn = None
  for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
        n.lineno == lo:
      fn = n
  if fn is None:
    return
  for i, d, ap in list(sites(fn)):
    t2 = copy.deepcopy(tree)
    f2 = [n for n in ast.walk(t2) if isinstance(n, (
        ast.FunctionDef, ast.AsyncFunctionDef)) and n.lineno == lo][0]
    node = list(ast.walk(f2))[i]
    line = node.lineno if hasattr(node, 'lineno') else 0
    before = ast.unparse(node).splitlines()[0][:100]
    if ap == 'DEL':
      done = False
      for p in ast.walk(f2):
        for fld in ('body', 'orelse', 'finalbody'):
          b = getattr(p, fld, None)
          if isinstance(b, list) and node in b:
            b[b.index(node)] = ast.copy_location(ast.Pass(), node)
            done = True
      if not done:
        continue
    else:
      try:
        ap(node)
      except Exception:  # pylint: disable=broad-except
        continue
    ast.fix_missing_locations(t2)
    try:
      s = ast.unparse(t2)
      compile(s, 'x', 'exec')
    except Exception:  # pylint: disable=broad-except
      continue
    yield line, d, before, s


def job(a):
  props, rel, src, line, d, before = a
  from sa import check as chk
  from sa.project import Project
  import importlib
  for prop in props:
    ck = chk.Check(prop, project=Project(overlay={rel: src}))
    try:
      ck.decide(importlib.import_module('rules.' + prop.lower()))
      broken = False
    except Exception as e:  # pylint: disable=broad-except
      broken = True
    if any(not x[2] for x in ck.obs):
      return line, d, before, 'caught'
    if broken:
      return line, d, before, 'BROKEN'
  return line, d, before, 'SURVIVED'


def main():
  import multiprocessing as mp
  from sa.project import Project
  props = sys.argv[1].split(',')
  p = Project()
  jobs = []

  def add(fs):
    for f in fs:
      rel = f.module.rel
      src = open(os.path.join('/repo', rel)).read()
      for line, d, b, s in mutants(src, f.node.lineno, 0):
        jobs.append((props, rel, s, line, d, b))

  for q in sys.argv[2:]:
    if q in p.modules:
      m = p.module(q)
      fs = [v[1] for v in m.names.values() if v[0] == 'func']
      for v in m.names.values():
        if v[0] == 'class':
          fs += list(v[1].methods.values())
      add(fs)
      continue
    k = p.resolve(q)
    fs = []
    if k[0] in ('func', 'method'):
      fs = [k[1]]
    elif k[0] == 'class':
      fs = list(k[1].methods.values())
    add(fs)
  tot = {}
  with mp.Pool(8, maxtasksperchild=12) as pool:
    res = sorted(pool.imap_unordered(job, jobs), key=lambda x: (x[0], x[1]))
  for line, d, b, st in res:
    tot[st] = tot.get(st, 0) + 1
    if st != 'caught':
      print(st, line, d, '|', b)
  print(tot)


if __name__ == '__main__':
  main()
