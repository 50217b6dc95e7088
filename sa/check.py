"""Obligation bookkeeping, evidence and verdicts shared by every rule."""
from __future__ import annotations

import json
import os
import sys
import time

from sa import pat
from sa.engine import Analyzer
from sa.project import ClassVal, FuncVal, Project
from sa.terms import *  # pylint: disable=wildcard-import

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
  """The analysis lost an anchor: no verdict is possible."""


class Check:

  def __init__(self, prop, tier='quick', project=None):
    self.prop = prop
    self.tier = tier
    self.p = project or Project()
    self.obs = []            # (rule, construct, ok, where, message)
    self.analysed = {}       # qual -> number of events
    self.rules = {}
    self.notes = []
    self._cache = {}

  # -- program access -------------------------------------------------------

  def resolve(self, q):
    r = self.p.resolve(q)
    if r is None:
      self.lost(f'anchor {q} not found')
    return r

  def lost(self, what):
    """An obligation that cannot even be stated on this tree."""
    self.ob(self.prop + '.established', what, False, '',
            'the property could not be established from this source')
    raise Broken(what)

  def func(self, q) -> FuncVal:
    r = self.resolve(q)
    if r[0] not in ('func', 'method'):
      self.lost(f'anchor {q} is a {r[0]}')
    return r[1]

  def cls(self, q) -> ClassVal:
    r = self.resolve(q)
    if r[0] != 'class':
      self.lost(f'anchor {q} is a {r[0]}')
    return r[1]

  def run(self, q, cls=None, opaque=(), inline=(), args=None, heap=None,
          with_init=False):
    key = (q, cls, tuple(sorted(opaque)), tuple(sorted(inline)),
           tuple(sorted((args or {}).items(), key=lambda x: x[0])), with_init)
    if heap is None and key in self._cache:
      return self._cache[key]
    fv = self.func(q)
    c = self.cls(cls) if cls else fv.cls
    an = Analyzer(self.p, opaque=opaque, inline=inline)
    h = dict(heap or {})
    if with_init and c is not None:
      h.update(self.init_heap(c, opaque))
    r = an.run(fv, args=args, self_cls=c, heap=h)
    self.analysed[q] = len(r.events)
    for e in r.events:
      for s in e.stack:
        self.analysed.setdefault(s, 0)
    self._cache[key] = r
    return r

  def init_only(self, m, seen=()):
    """m is a helper new to the tree that only constructors use."""
    import ast
    if m.qual in self.p.inventory or m in seen:
      return False

    def uses(f):
      return any(isinstance(x, (ast.Attribute, ast.Name)) and getattr(
          x, 'attr', getattr(x, 'id', None)) == m.name
                 for x in ast.walk(f.node))
    users = [f for f in self.p.all_functions()
             if f is not m and f.node is not m.node and uses(f)]
    return bool(users) and all(
        f.name == '__init__' or f.frame is None and self.init_only(f, seen + (m,))
        for f in users)

  def init_heap(self, c, opaque=()):
    """Attributes assigned in __init__ and nowhere else in the class."""
    import ast
    init = self.p.find_method(c, '__init__')
    if init is None:
      return {}
    an = Analyzer(self.p, opaque=opaque)
    params = {}
    a = init.node.args
    for n in [p.arg for p in a.args[1:] + a.kwonlyargs]:
      params[n] = sym('init:' + n)
    r = an.run(init, args=params, self_cls=c)
    selft = sym(init.params()[0])
    other = set()
    classes = list(self.p.mro(c))
    for k in classes:
      for m in k.methods.values():
        if m.name == '__init__' or self.init_only(m):
          continue
        for n in ast.walk(m.node):
          tg = []
          if isinstance(n, ast.Assign):
            tg = n.targets
          elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tg = [n.target]
          for t in tg:
            for x in ast.walk(t):
              if isinstance(x, ast.Attribute):
                other.add(x.attr)
    return {k: v for k, v in r.state.heap.items()
            if k[0] is selft and k[1] not in other}

  def run_src(self, src, name, module=None, args=None, opaque=(), inline=(),
              cls=None):
    """Analyses a reference definition given as source text."""
    import ast
    from sa.project import Module
    import tempfile
    path = os.path.join(VERIF, 'sa', '_spec_' + name + '.py')
    m = object.__new__(Module)
    m.name = module or 't5x.__spec__'
    m.path = path
    m.project = self.p
    m.source = src
    m.tree = ast.parse(src)
    m.names = {}
    m.is_pkg = False
    m._collect()
    if module:
      # names not defined in the spec resolve in the named module
      for k, v in self.p.module(module).names.items():
        m.names.setdefault(k, v)
      for k, v in self.p.imports.get(module, {}).items():
        m.names.setdefault(k, ('import', v))
    for k, v in m.names.items():
      if v[0] == 'func' and v[1].module is m and k != name:
        pass
    fv = m.names[name][1]
    an = Analyzer(self.p, opaque=opaque, inline=inline)
    an.root_module = m
    an.spec_module = m
    return an.run(fv, args=args, self_cls=self.cls(cls) if cls else None)

  def P(self, src, **env):
    return pat.parse(self.p, src, env)

  def T(self, src, **env):
    return pat.parse(self.p, src, env)

  # -- obligations ----------------------------------------------------------

  def rule(self, name, text):
    self.rules[name] = text

  def ob(self, rule, construct, ok, where='', msg=''):
    self.obs.append((rule, construct, bool(ok), where, msg))
    return bool(ok)

  def need(self, cond, what):
    if not cond:
      self.lost(what)

  def decide(self, mod):
    """Runs the rules; what cannot be established is not discharged."""
    try:
      mod.check(self)
    except Broken as e:
      if not any(not o[2] for o in self.obs):
        self.ob(self.prop + '.established', str(e), False, '',
                'the property could not be established from this source')
      self.notes.append(f'analysis stopped early: {e}')
    except (LookupError, AttributeError, TypeError, ValueError, NameError,
            RecursionError, AssertionError) as e:
      import traceback
      tb = traceback.extract_tb(e.__traceback__)
      w = [x for x in tb if '/rules/' in x.filename] or tb
      self.notes.append('analysis stopped early: '
                        f'{type(e).__name__} {e} at {w[-1].name}')
      self.ob(self.prop + '.established', f'rule {w[-1].name} applies', False,
              '', 'the code no longer has the shape the rule reads: '
              f'{type(e).__name__} {e}')

  # -- verdict --------------------------------------------------------------

  def finish(self, t0, seed, known, selftest=None):
    fails = [o for o in self.obs if not o[2]]
    unk, kn = [], []
    for o in fails:
      k = known.get((self.prop, o[0], o[1]))
      (kn if k else unk).append((o, k))
    for o, k in kn:
      print(f'KNOWN-FINDING: property={self.prop} {o[0]} {o[1]}: {k}')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', f'{self.prop}.violations.json')
    vio = []
    for o, _ in unk:
      vio.append({'rule': o[0], 'construct': o[1], 'where': o[3],
                  'message': o[4]})
    self.rules.setdefault(self.prop + '.established',
                          'every rule finds the code it is about')
    self.ob(self.prop + '.established', 'all rules applied', True)
    per_rule = {}
    for r, c, ok, w, m in self.obs:
      d = per_rule.setdefault(r, {'rule': self.rules.get(r, ''), 'instances': 0,
                                  'held': 0, 'constructs': []})
      d['instances'] += 1
      d['held'] += ok
      if len(d['constructs']) < 12:
        d['constructs'].append(f'{c} @ {w}' if w else c)
    ev = {
        'property': self.prop,
        'tier': self.tier,
        'seed': seed,
        'level': LEVELS.get(self.prop, 'other'),
        'coverage': {
            'explanation':
                f'Static value-flow analysis of {len(self.analysed)} functions '
                f'of the current /repo tree; {len(self.obs)} obligations over '
                f'{len(per_rule)} rules, {len(self.obs) - len(fails)} '
                'discharged. No code is executed.',
            'functions_analysed': sorted(self.analysed),
            'obligations': len(self.obs),
            'discharged': len(self.obs) - len(fails),
            'rules': per_rule,
        },
        'assumptions': ASSUMPTIONS + self.notes,
        'violations': len(vio),
        'violated': [f"{v['rule']}: {v['construct']} at {v['where']}: "
                       f"{v['message']}" for v in vio],
        'known_findings': [f'{o[0]}: {o[1]}' for o, _ in kn],
        'wall_s': round(time.time() - t0, 3),
    }
    if selftest is not None:
      ev['coverage']['selftest'] = selftest
    with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
      json.dump(ev, f, indent=1)
    print(f'{self.prop}: {len(self.obs)} obligations over {len(per_rule)} '
          f'rules, {len(self.analysed)} functions analysed, '
          f'{len(unk)} violated, {len(kn)} known')
    if vio:
      with open(rep, 'w') as f:
        json.dump(vio, f, indent=1)
      for v in vio:
        print(f"  {v['rule']} | {v['construct']} | {v['where']} | "
              f"{v['message']}")
      print(f'VIOLATION property={self.prop} replay={rep}')
      return 1
    if os.path.exists(rep):
      os.remove(rep)
    return 0


LEVELS: dict = {}

ASSUMPTIONS = [
    'external libraries (jax, flax, optax, orbax, tensorstore, tensorflow, '
    'seqio) behave as documented',
    'no monkey-patching of the analysed functions at run time',
    'in-place mutation through an alias the analysis does not see is absent',
]
