"""Patterns over value terms, written as Python expressions.

`P("jax.random.fold_in(_r, self.step)")` is parsed and normalised by the same
engine as the analysed code, so spelling differences cancel on both sides.
Names: `_` matches anything, `_x` binds, well-known modules resolve to dotted
references, anything else is a symbol (parameter).  `...` inside a call ignores
the remaining arguments.
"""
from __future__ import annotations

import ast
import itertools

from sa.engine import Analyzer, Frame, State, _EMPTY_FN
from sa.project import FuncVal, Module
from sa.terms import *  # pylint: disable=wildcard-import
from sa.terms import digest

_MODS = {
    'jax': 'jax', 'jnp': 'jax.numpy', 'np': 'numpy', 'lax': 'jax.lax',
    'tf': 'tensorflow', 'gfile': 'tensorflow.io.gfile', 'functools':
    'functools', 'flax': 'flax', 'nn': 'flax.linen', 't5x': 't5x', 'os': 'os',
    'multihost_utils': 'jax.experimental.multihost_utils', 'optax': 'optax',
    'asyncio': 'asyncio', 'seqio': 'seqio', 'clu': 'clu', 'orbax': 'orbax',
    'time': 'time', 'math': 'math', 'traverse_util': 'flax.traverse_util',
    're': 're', 'serialization': 'flax.serialization', 'gc': 'gc',
}


class _FakeModule:
  name = '<pattern>'
  rel = '<pattern>'
  names: dict = {}


def parse(project, src, env=None):
  an = Analyzer(project, no_inline_all=True)
  tree = ast.parse(src.strip(), mode='eval').body
  fm = _FakeModule()
  fv = FuncVal(_EMPTY_FN, fm, None, None, '<pattern>')
  an.root_module = fm
  an.stack.append(fv)
  fr = Frame(0, None, fm, fv, None, None)
  an.frames[0] = fr
  st = State()
  st.frames[0] = {}
  for n in ast.walk(tree):
    if isinstance(n, ast.Name):
      if env and n.id in env:
        st.frames[0][n.id] = env[n.id]
      elif n.id.startswith('_'):
        st.frames[0][n.id] = mk('mv', n.id)
      elif n.id in _MODS:
        st.frames[0][n.id] = ref(_MODS[n.id])
      elif n.id in _B:
        st.frames[0][n.id] = ref('builtins.' + n.id)
      else:
        st.frames[0][n.id] = sym(n.id)
  return an.expr(tree, st, fr)


import builtins as _b  # pylint: disable=wrong-import-position
_B = set(dir(_b)) - {'input', 'id', 'iter', 'dir', 'hash', 'type'} | {
    'type', 'iter', 'next'}

_COMM = {'and', 'or', 'add', 'mul', 'eq', 'is', 'set', 'bitor', 'bitand'}
_ELL = const(...)


def match(p, t, b=None):
  """First binding matching pattern p against term t, else None."""
  for r in matches(p, t, b or {}):
    return r
  return None


def matches(p, t, b):
  if isinstance(p, T) and p.op == 'mv':
    n = p.args[0]
    if n == '_':
      yield b
    elif n in b:
      if b[n] is t or (isinstance(t, T) and isinstance(b[n], T) and
                       digest(b[n]) == digest(t)):
        yield b
    else:
      b2 = dict(b)
      b2[n] = t
      yield b2
    return
  if not isinstance(p, T) or not isinstance(t, T):
    if isinstance(p, tuple) and isinstance(t, tuple):
      yield from _seq(p, t, b)
    elif p == t and type(p) is type(t):
      yield b
    return
  if p is t:
    yield b
    return
  if p.op != t.op:
    return
  if p.op == 'call':
    for b1 in matches(p.args[0], t.args[0], b):
      yield from _call(p, t, b1)
    return
  if p.op in _COMM and len(p.args) == len(t.args) and len(p.args) <= 5:
    for perm in itertools.permutations(t.args):
      yield from _seq(p.args, perm, b)
    return
  if p.op in ('loopout', 'mu', 'last', 'while'):
    if digest(p) == digest(t):
      yield b
    return
  yield from _seq(p.args, t.args, b)


def _seq(ps, ts, b):
  if len(ps) != len(ts):
    return
  if not ps:
    yield b
    return
  for b1 in matches(ps[0], ts[0], b):
    yield from _seq(ps[1:], ts[1:], b1)


def _call(p, t, b):
  pa, pk = p.args[1], p.args[2]
  ta, tk = t.args[1], t.args[2]
  rest = False
  pos = []
  for a in pa:
    if a is _ELL:
      rest = True
    else:
      pos.append(a)
  # `...` may have been normalised into a keyword slot
  kws = []
  for k, v in pk:
    if v is _ELL:
      rest = True
    else:
      kws.append((k, v))
  if len(pos) > len(ta) or (not rest and len(pos) != len(ta)):
    return
  tkd = dict(tk)
  if not rest and len(kws) != len(tk):
    return
  for k, _ in kws:
    if k not in tkd:
      return
  yield from _seq(
      tuple(pos) + tuple(v for _, v in kws),
      tuple(ta[:len(pos)]) + tuple(tkd[k] for k, _ in kws), b)


def find(p, t):
  """All (subterm, binding) of t matching p."""
  out = []
  for x in subterms(t):
    b = match(p, x)
    if b is not None:
      out.append((x, b))
  return out


def leaves(t, cond=TRUE):
  """Flattens nested conditionals into (condition, leaf) pairs."""
  if t.op == 'ite':
    c, a, b = t.args
    return leaves(a, b_and(cond, c)) + leaves(b, b_and(cond, b_not(c)))
  return [(cond, t)]
