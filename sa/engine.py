"""Interprocedural gated value-flow analysis of Python functions.

One pass of abstract interpretation per function produces
  * for every use, the *definition term* reaching it (locals, helper functions,
    closures, partials and loop rewrites are resolved away; branches are merged
    with gating conditions, loops are summarised once as maps/folds);
  * a list of events (calls, stores, raises, returns), each with the condition
    under which it is reached, its enclosing loops / with / try contexts and its
    program order.
No path is enumerated and nothing is executed: every statement is visited a
bounded number of times whatever the input.
"""
from __future__ import annotations

import ast
import copy

from sa import canon
from sa.project import ClassVal, FuncVal, Project
from sa.terms import *  # pylint: disable=wildcard-import
from sa.terms import mk_eq, mk_is, mk_lt

MAX_DEPTH = 40
MAX_EVENTS = 60000
UNDEF = mk('undef')


class LOOPS:
  """Loops are numbered across all analyses."""
  n = 1


class AnalysisLimit(Exception):
  pass


class Event:
  __slots__ = ('kind', 'term', 'guard', 'loops', 'withs', 'trys', 'lineno',
               'path', 'stack', 'idx', 'lams', 'fin', 'handler', 'fn', 'args',
               'kw', 'extra')

  def __repr__(self):
    return f'{self.kind}@{self.path}:{self.lineno} {show(self.term, 5)}'

  @property
  def where(self):
    return f'{self.path}:{self.lineno}'

  @property
  def func(self):
    return self.stack[-1] if self.stack else '?'

  def name(self):
    """Dotted name of the callee when it is a known reference."""
    if self.fn is None:
      return None
    if self.fn.op == 'ref':
      return self.fn.args[0]
    if self.fn.op == 'fn':
      return self.fn.args[0].qual
    return None

  def meth(self):
    """Method name for obj.meth(...) calls, or last component of a ref."""
    if self.fn is None:
      return None
    if self.fn.op == 'attr':
      return self.fn.args[1]
    n = self.name()
    return n.rsplit('.', 1)[-1] if n else None

  def arg(self, i=None, name=None, default=None):
    if name is not None:
      for k, v in self.kw:
        if k == name:
          return v
    if i is not None and i < len(self.args):
      return self.args[i]
    return default


class State:
  __slots__ = ('frames', 'heap', 'guard')

  def __init__(self):
    self.frames = {}
    self.heap = {}
    self.guard = TRUE

  def copy(self):
    s = State()
    s.frames = {k: dict(v) for k, v in self.frames.items()}
    s.heap = dict(self.heap)
    s.guard = self.guard
    return s

  @property
  def dead(self):
    return self.guard is FALSE

  def become(self, o):
    self.frames, self.heap, self.guard = o.frames, o.heap, o.guard


def _is_place(e):
  """e names a variable or an attribute of one."""
  return isinstance(e, ast.Name) or isinstance(
      e, ast.Attribute) and _is_place(e.value)


class Frame:
  """Static part of a function activation."""

  def __init__(self, fid, parent, module, fv, self_cls, self_term):
    self.fid = fid
    self.parent = parent
    self.module = module
    self.fv = fv
    self.self_cls = self_cls
    self.self_term = self_term
    self.returns = []
    self.breaks = []      # stack of lists
    self.continues = []
    self.nonlocals = set()
    self.globals = set()
    self.is_gen = False
    self.links = {}
    self.lastval = {}


class Result:

  def __init__(self, ret, events, state, analysis, frame, entry):
    self.ret = ret
    self.events = events
    self.state = state
    self.an = analysis
    self.frame = frame
    self.entry = entry

  def calls(self, *names, meth=None):
    out = []
    for e in self.events:
      if e.kind != 'call':
        continue
      if names and (e.name() in names):
        out.append(e)
      elif meth and e.meth() in ((meth,) if isinstance(meth, str) else meth):
        out.append(e)
    return out

  def raises(self):
    return [e for e in self.events if e.kind == 'raise']

  def local(self, name):
    return self.state.frames[self.frame.fid].get(name)


FAILS = const('<fails>')  # in place of a value whose computation fails
_MUTATORS = {'append', 'extend', 'update', 'add', 'setdefault', 'pop',
             'insert', 'clear', 'popitem', 'remove', 'discard', 'appendleft',
             'sort', 'reverse'}


def rel_guard(g, base):
  """Conjuncts of g that are not already conjuncts of base."""
  bl = set(base.args) if base.op == 'and' else {base}
  gl = g.args if g.op == 'and' else (g,)
  out = []
  for x in gl:
    if x in bl:
      continue
    if x.op == 'or':
      # drop disjuncts contradicted by the base
      ys = [y for y in x.args if b_not(y) not in bl]
      x = b_or(*ys) if ys else x
    out.append(x)
  return b_and(*out)


_STR_METHODS = {'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'lower', 'upper',
                'startswith', 'endswith', 'replace', 'removeprefix',
                'removesuffix'}


class Analyzer:

  def __init__(self, project: Project, opaque=(), inline=(), no_inline_all=False,
               inline_known=None, max_inline=14):
    self.p = project
    self.opaque = set(opaque)
    self.inline = set(inline)
    self.no_inline_all = no_inline_all
    self.max_inline = max_inline
    self.inline_known = inline_known
    self.events = []
    self.frames = {}
    self.nframes = 0
    self.ntry = 0
    self.withs = ()
    self.trys = ()
    self.loops = ()
    self.lams = ()
    self.stack = []       # FuncVals being evaluated
    self.fin = 0
    self.handler = 0
    self.dry = 0
    self.fatal = False
    self.bv_depth = 0
    self.cls_of = {}      # term -> ClassVal
    self.root_module = None
    self.root_cls = None
    self.lam_src = {}
    self._const_busy = set()

  # -- public -------------------------------------------------------------

  def run(self, fv: FuncVal, args=None, self_cls=None, heap=None, state=None):
    """Analyses fv with symbolic parameters (overridden by `args`)."""
    args = dict(args or {})
    st = state or State()
    if heap:
      st.heap.update(heap)
    self.root_module = self.root_module or fv.module
    cls = self_cls or fv.cls
    self.root_cls = self.root_cls or cls
    params = self._all_params(fv)
    bound = {}
    self_term = None
    for i, p in enumerate(params):
      if i == 0 and (fv.cls or self_cls) is not None and not fv.has_decorator('staticmethod'):
        t = args.get(p, sym(p))
        if fv.has_decorator('classmethod'):
          t = args.get(p, ref(cls.qual))
        self_term = t
        if cls is not None:
          self.cls_of[t] = cls
      else:
        t = args.get(p, sym(p))
      bound[p] = t
    start = len(self.events)
    entry = st.guard
    ret, frame = self._eval_function(fv, bound, st, cls, self_term)
    return Result(ret, self.events[start:], st, self, frame, entry)

  def apply(self, fnterm, args, kwargs=(), st=None):
    """Applies a callable term (closure, partial, lam) to argument terms."""
    st = st or State()
    start = len(self.events)
    ret = self._call(fnterm, list(args), list(kwargs), st, None)
    return Result(ret, self.events[start:], st, self, None, TRUE)

  # -- infrastructure -----------------------------------------------------

  def _all_params(self, fv):
    a = fv.node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    if a.vararg:
      ps.append(a.vararg.arg)
    ps += [p.arg for p in a.kwonlyargs]
    if a.kwarg:
      ps.append(a.kwarg.arg)
    return ps

  def _emit(self, kind, term, st, node, fn=None, args=(), kw=(), extra=None):
    if st.dead:
      return None
    e = Event()
    e.kind, e.term, e.guard = kind, term, st.guard
    e.loops, e.withs, e.trys = self.loops, self.withs, self.trys
    e.lineno = getattr(node, 'lineno', 0) if node is not None else 0
    e.path = self.stack[-1].module.rel if self.stack else '?'
    e.stack = tuple(f.qual for f in self.stack)
    e.idx = len(self.events)
    e.lams = self.lams
    e.fin = self.fin
    e.handler = self.handler
    e.fn, e.args, e.kw = fn, tuple(args), tuple(kw)
    e.extra = extra
    if len(self.events) > MAX_EVENTS:
      raise AnalysisLimit('too many events')
    self.events.append(e)
    return e

  def _links(self, fv, lead, node, fr):
    """Parameters of a helper that name what the caller's expressions name.

    Changes made in place through such a parameter (never rebound) are changes
    of the caller's object.
    """
    if fr is None or not isinstance(node, ast.Call) or isinstance(
        fv.node, ast.Lambda):
      return {}
    names = fv.params()[lead:]
    pairs = []
    for n, a in zip(names, node.args):
      if isinstance(a, ast.Starred):
        break
      pairs.append((n, a))
    pairs += [(k.arg, k.value) for k in node.keywords if k.arg]
    out = {n: (a, fr) for n, a in pairs if _is_place(a)}
    if out:
      rebound = {x.id for x in ast.walk(fv.node) if isinstance(
          x, ast.Name) and not isinstance(x.ctx, ast.Load)}
      out = {n: v for n, v in out.items() if n not in rebound}
    return out

  def _eval_function(self, fv, bound, st, self_cls, self_term, links=None):
    fid = self.nframes
    self.nframes += 1
    fr = Frame(fid, fv.frame, fv.module, fv, self_cls, self_term)
    fr.links = links or {}
    if fv.cls is None and fv.frame is not None:
      pf = self.frames.get(fv.frame)
      if pf is not None:
        fr.self_cls, fr.self_term = pf.self_cls, pf.self_term
    self.frames[fid] = fr
    st.frames[fid] = dict(bound)
    entry = st.guard
    self.stack.append(fv)
    saved_loops_brk = None
    ev_start = len(self.events)
    try:
      if isinstance(fv.node, ast.Lambda):
        v = self.expr(fv.node.body, st, fr)
        return v, fr
      self.block(fv.node.body, st, fr)
      rets = list(fr.returns)
      raised = getattr(fr, 'raised', [])
      if not st.dead:
        rets.append((st.guard, NONE))
      # guard after the call: entry minus raise conditions
      if raised or not rets:
        conj = [entry]
        if not rets:
          st.guard = FALSE
        else:
          for g in raised:
            conj.append(b_not(rel_guard(g, entry)))
          st.guard = b_and(*conj)
      else:
        st.guard = entry
      if fr.is_gen:
        ys = [e for e in self.events[ev_start:] if e.kind == 'yield'
              and e.stack and e.stack[-1] == fv.qual]
        out = mk('gen', tuple(e.term for e in ys))
        if len(ys) == 1 and len(ys[0].loops) > len(self.loops):
          e = ys[0]
          its = tuple(x[1] for x in e.loops[len(self.loops):])
          g = rel_guard(e.guard, entry)
          out = mk('comp', 'list', e.term, its, g)
        return out, fr
      if not rets:
        return UNDEF, fr
      r = rets[-1][1]
      # where the call fails it has no value
      ok = b_and(*[b_not(rel_guard(g, entry)) for g in raised])
      for g, v in reversed(rets[:-1]):
        k = rel_guard(g, entry)
        if ok is not TRUE:
          k = b_and(*[x for x in (k.args if k.op == 'and' else (k,))
                      if not implies(ok, x)])
        r = ite(k, v, r)
      # values of frames merged by returns: the state seen after the call is the
      # state at the (last) exit; states at early exits are merged in
      self._merge_exits(fr, st, entry)
      return r, fr
    finally:
      self.stack.pop()

  def _merge_exits(self, fr, st, entry):
    """Merges heap / outer-frame effects of early returns."""
    exits = getattr(fr, 'exits', [])
    for g, s in exits:
      cond = rel_guard(g, entry)
      for k in set(s.heap) | set(st.heap):
        a = s.heap.get(k)
        b = st.heap.get(k)
        if a is b:
          continue
        if a is None:
          a = self._attr_default(k)
        if b is None:
          b = self._attr_default(k)
        if fr.fell_dead:
          b2 = a
        st.heap[k] = ite(cond, a, b)
      for fid in st.frames:
        if fid == fr.fid or fid not in s.frames:
          continue
        for n in set(st.frames[fid]) | set(s.frames[fid]):
          a = s.frames[fid].get(n, UNDEF)
          b = st.frames[fid].get(n, UNDEF)
          if a is not b:
            st.frames[fid][n] = ite(cond, a, b)

  def _attr_default(self, key):
    if isinstance(key, tuple):
      return attr(key[0], key[1])
    return UNDEF

  # -- statements ---------------------------------------------------------

  def block(self, stmts, st, fr):
    for s in stmts:
      if st.dead:
        return
      self.stmt(s, st, fr)

  def stmt(self, s, st, fr):
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      return
    m(s, st, fr)

  def s_Expr(self, s, st, fr):
    v = s.value
    if isinstance(v, ast.Constant):
      return
    self.expr(v, st, fr)

  def s_Pass(self, s, st, fr):
    pass

  def s_Import(self, s, st, fr):
    for a in s.names:
      if a.asname:
        st.frames[fr.fid][a.asname] = ref(a.name)
      else:
        st.frames[fr.fid][a.name.split('.')[0]] = ref(a.name.split('.')[0])

  def s_ImportFrom(self, s, st, fr):
    for a in s.names:
      st.frames[fr.fid][a.asname or a.name] = self._dotted(
          f'{s.module}.{a.name}')

  def s_Nonlocal(self, s, st, fr):
    fr.nonlocals |= set(s.names)

  def s_Global(self, s, st, fr):
    fr.globals |= set(s.names)

  def s_FunctionDef(self, s, st, fr):
    st.frames[fr.fid][s.name] = self._closure(s, fr)

  s_AsyncFunctionDef = s_FunctionDef

  def s_ClassDef(self, s, st, fr):
    cv = ClassVal(s, fr.module, f'{fr.fv.qual}.<locals>.{s.name}')
    cv.collect()
    for m in cv.methods.values():
      m.frame = fr.fid
    t = mk('cls', cv)
    st.frames[fr.fid][s.name] = t

  def _closure(self, node, fr):
    cache = fr.__dict__.setdefault('closures', {})
    fv = cache.get(node)
    if fv is None:
      nm = getattr(node, 'name', '<lambda>')
      fv = FuncVal(node, fr.module, None, fr.fid, f'{fr.fv.qual}.<locals>.{nm}')
      cache[node] = fv
    return mk('fn', fv)

  def s_Return(self, s, st, fr):
    v = self.expr(s.value, st, fr) if s.value is not None else NONE
    self._emit('return', v, st, s)
    fr.returns.append((st.guard, v))
    fr.__dict__.setdefault('exits', []).append((st.guard, st.copy()))
    fr.fell_dead = False
    st.guard = FALSE

  def s_Raise(self, s, st, fr):
    v = self.expr(s.exc, st, fr) if s.exc is not None else mk('reraise')
    self._emit('raise', v, st, s)
    if self.fatal and not any(t[2] for t in self.trys):
      return
    self._raised(st, fr)
    st.guard = FALSE

  def _raised(self, st, fr):
    if not self.trys or not any(t[3] == fr.fid for t in self.trys):
      if fr is not None:
        fr.__dict__.setdefault('raised', []).append(st.guard)
    else:
      # caught (maybe) by an enclosing handler in this frame
      for t in reversed(self.trys):
        if t[3] == fr.fid:
          t[4].append(st.guard)
          break

  def _propagate(self, callee, fr, st):
    """Exceptions of an inlined callee also leave the caller."""
    for g in getattr(callee, 'raised', []):
      s2 = State.__new__(State)
      s2.guard = g
      self._raised(s2, fr)

  def s_Assert(self, s, st, fr):
    c = self.cond(s.test, st, fr)
    if self.fatal and not any(t[2] for t in self.trys):
      return
    sv = st.guard
    st.guard = b_and(sv, b_not(c))
    if st.guard is not FALSE:
      self._emit('raise', mk('call', ref('builtins.AssertionError'), (), ()),
                 st, s)
      self._raised(st, fr)
    st.guard = b_and(sv, c)

  def s_Delete(self, s, st, fr):
    for t in s.targets:
      if isinstance(t, ast.Name):
        st.frames[fr.fid].pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        b = self.expr(t.value, st, fr)
        i = self.expr(t.slice, st, fr)
        self._emit('delitem', mk('delitem', b, i), st, s, extra=(b, i))
        self._store_back(t.value, mk('delitem', b, i), st, fr)

  def s_Assign(self, s, st, fr):
    v = self.expr(s.value, st, fr)
    for t in s.targets:
      self.assign(t, v, st, fr, s)

  def s_AnnAssign(self, s, st, fr):
    if s.value is not None:
      self.assign(s.target, self.expr(s.value, st, fr), st, fr, s)

  def s_AugAssign(self, s, st, fr):
    cur = self.expr(_as_load(s.target), st, fr)
    rhs = self.expr(s.value, st, fr)
    v = self.binop(s.op, cur, rhs)
    self.assign(s.target, v, st, fr, s)

  def assign(self, t, v, st, fr, node):
    if st.dead:
      return
    if isinstance(t, ast.Name):
      self._set_name(t.id, v, st, fr)
    elif isinstance(t, (ast.Tuple, ast.List)):
      n = len(t.elts)
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        k = star[0]
        for i, e in enumerate(t.elts[:k]):
          self.assign(e, index(v, const(i)), st, fr, node)
        after = n - k - 1
        if v.op in ('tuple', 'list') and len(v.args) >= n - 1:
          mid = mk('list', *v.args[k:len(v.args) - after])
        else:
          mid = self._slice(v, const(k) if k else NONE,
                            const(-after) if after else NONE, NONE)
        self.assign(t.elts[k].value, mid, st, fr, node)
        for j in range(after):
          self.assign(t.elts[k + 1 + j], index(v, const(j - after)), st, fr,
                      node)
      else:
        for i, e in enumerate(t.elts):
          self.assign(e, self._unpack(v, i, n), st, fr, node)
    elif isinstance(t, ast.Attribute):
      b = self.expr(t.value, st, fr)
      self._emit('setattr', v, st, node, extra=(b, t.attr))
      st.heap[(b, t.attr)] = v
    elif isinstance(t, ast.Subscript):
      b = self.expr(t.value, st, fr)
      i = self.expr(t.slice, st, fr)
      self._emit('setitem', v, st, node, extra=(b, i))
      self._store_back(t.value, self.setitem(b, i, v), st, fr)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, st, fr, node)

  def _unpack(self, v, i, n):
    if v.op == 'ite':
      c, a, b = v.args
      return ite(c, self._unpack(a, i, n), self._unpack(b, i, n))
    return index(v, const(i))

  def setitem(self, b, k, v):
    if k.op == 'const' and b.op == 'ite':
      b = _one_dict(b)
    if b.op == 'dict' and k.op == 'const' and all(
        x.op == 'const' for x, _ in b.args):
      items = [(x, y) for x, y in b.args if x is not k] + [(k, v)]
      return mk('dict', *_sort_items(items))
    if b.op == 'ite' and b.args[1].op in ('dict',) or b.op == 'ite' and b.args[
        2].op in ('dict',):
      c, x, y = b.args
      return ite(c, self.setitem(x, k, v), self.setitem(y, k, v))
    if b.op == 'dict' and not b.args:
      return mk('dict', (k, v))
    if b.op == 'setitem' and b.args[1] is k:
      b = b.args[0]
    return mk('setitem', b, k, v)

  def _set_name(self, name, v, st, fr):
    if name in fr.nonlocals:
      p = fr.parent
      while p is not None:
        if name in st.frames.get(p, {}):
          st.frames[p][name] = v
          return
        p = self.frames[p].parent
    st.frames[fr.fid][name] = v
    fr.lastval[name] = v

  def _store_back(self, target, v, st, fr):
    """After an in-place mutation of the object denoted by `target`."""
    if isinstance(target, ast.Name):
      # mutate wherever the name lives
      f = fr
      fid = fr.fid
      while fid is not None:
        if target.id in st.frames.get(fid, {}):
          st.frames[fid][target.id] = v
          link = self.frames[fid].links.get(target.id)
          if link is not None and link[1].fid in st.frames:
            self._store_back(link[0], v, st, link[1])
          return
        fid = self.frames[fid].parent
    elif isinstance(target, ast.Attribute):
      b = self.expr(target.value, st, fr, quiet=True)
      st.heap[(b, target.attr)] = v
    elif isinstance(target, ast.Subscript):
      b = self.expr(target.value, st, fr, quiet=True)
      i = self.expr(target.slice, st, fr, quiet=True)
      self._store_back(target.value, self.setitem(b, i, v), st, fr)

  def s_If(self, s, st, fr):
    c = self.cond(s.test, st, fr)
    if st.dead:
      return
    if c is TRUE:
      return self.block(s.body, st, fr)
    if c is FALSE:
      return self.block(s.orelse, st, fr)
    base = st.guard
    st1 = st
    st2 = st.copy()
    st1.guard = b_and(base, c)
    st2.guard = b_and(base, b_not(c))
    # contradiction or redundancy with what is already known
    if st1.guard is FALSE or implies(base, b_not(c)):
      st1.become(st2)
      st1.guard = base
      return self.block(s.orelse, st, fr)
    if st2.guard is FALSE or implies(base, c):
      st1.guard = base
      return self.block(s.body, st, fr)
    self.block(s.body, st1, fr)
    self.block(s.orelse, st2, fr)
    self._merge(st1, st2, c, base)

  def _merge(self, st1, st2, c, base):
    """st1 := merge of st1 (under c) and st2 (under not c)."""
    if st1.dead and st2.dead:
      return
    if st1.dead:
      st1.become(st2)
      return
    if st2.dead:
      return
    for fid in st1.frames:
      d1 = st1.frames[fid]
      d2 = st2.frames.get(fid, {})
      for n in list(set(d1) | set(d2)):
        a = d1.get(n, UNDEF)
        b = d2.get(n, UNDEF)
        if a is not b:
          # a variable undefined on one side can only be used on the other
          d1[n] = b if a is UNDEF else a if b is UNDEF else ite(c, a, b)
    for fid in st2.frames:
      if fid not in st1.frames:
        st1.frames[fid] = st2.frames[fid]
    for k in set(st1.heap) | set(st2.heap):
      a = st1.heap.get(k)
      b = st2.heap.get(k)
      if a is b:
        continue
      if a is None:
        a = self._attr_default(k)
      if b is None:
        b = self._attr_default(k)
      st1.heap[k] = ite(c, a, b)
    r1 = rel_guard(st1.guard, base)
    r2 = rel_guard(st2.guard, base)
    st1.guard = b_and(base, b_or(r1, r2))

  def s_With(self, s, st, fr):
    saved = self.withs
    opened = []
    for it in s.items:
      cm = self.expr(it.context_expr, st, fr)
      extra = ()
      if cm.op == 'gen':
        extra = tuple(cm.args[0])
        v = extra[0] if extra else NONE
      else:
        v = mk('enter', cm)
      self.withs = self.withs + (cm,)
      opened.append(cm)
      self._emit('enter', cm, st, s)
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v, st, fr, s)
    self.block(s.body, st, fr)
    self.withs = saved
    for cm in reversed(opened):
      self._emit('exit', cm, st, s)

  s_AsyncWith = s_With

  def s_Try(self, s, st, fr):
    tid = self.ntry
    self.ntry += 1
    base = st.guard
    pre = st.copy()
    names = []
    for h in s.handlers:
      names.append(_except_names(h.type))
    raised = []
    saved_trys = self.trys
    entry = ('try', tid, tuple(names), fr.fid, raised, bool(s.finalbody))
    if s.handlers:
      self.trys = self.trys + (entry,)
    elif s.finalbody:
      self.trys = self.trys + (('tryfin', tid, (), -1, raised, True),)
    nret = len(fr.returns)
    nev = len(self.events)
    self.block(s.body, st, fr)
    label = _try_label(self.events[nev:])
    self.trys = saved_trys
    body_end = st.copy()
    if s.orelse:
      self.block(s.orelse, st, fr)
    # handlers
    outs = []
    for h, n in zip(s.handlers, names):
      hs = body_end.copy() if not body_end.dead else pre.copy()
      # values modified by the body are only possibly modified here
      for fid in pre.frames:
        for k, v in pre.frames[fid].items():
          w = hs.frames.get(fid, {}).get(k, v)
          if w is not v:
            hs.frames[fid][k] = ite(mk('exc', n, 'late'), w, v)
      for k, w in list(hs.heap.items()):
        v = pre.heap.get(k)
        if v is None:
          v = self._attr_default(k)
        if v is not w:
          hs.heap[k] = ite(mk('exc', n, 'late'), w, v)
      hs.guard = b_and(base, mk('exc', n, label))
      if h.name:
        hs.frames[fr.fid][h.name] = mk('excval', n)
      self.handler += 1
      self.trys = saved_trys
      self._emit('except', const(n), hs, h)
      self.block(h.body, hs, fr)
      self.handler -= 1
      outs.append((mk('exc', n, label), hs))
    cur = st
    for c, hs in outs:
      if hs.dead:
        continue
      if cur.dead:
        cur.become(hs)
        continue
      g = cur.guard
      o = hs
      o2 = cur.copy()
      self._merge(o, o2, c, base)
      cur.become(o)
      cur.guard = g if not hs.dead else g
      cur.guard = base if implies(b_or(g, b_and(base, c)), base) and all(
          not x.dead for _, x in outs) and not body_end.dead else b_or(
              g, hs.guard)
    if s.finalbody:
      was_dead = st.dead
      if was_dead:
        fs = pre.copy()
        fs.guard = base
        self.fin += 1
        self.block(s.finalbody, fs, fr)
        self.fin -= 1
      else:
        g = st.guard
        st.guard = base
        self.fin += 1
        self.block(s.finalbody, st, fr)
        self.fin -= 1
        if not st.dead:
          st.guard = g

  s_TryStar = s_Try

  # loops -------------------------------------------------------------------

  def s_For(self, s, st, fr):
    it = self.expr(s.iter, st, fr)
    self._for(s.target, it, s.body, s.orelse, st, fr, s)

  s_AsyncFor = s_For

  def _literal_items(self, it):
    if it.op in ('list', 'tuple') and len(it.args) <= 16 and not any(
        a.op == 'star' for a in it.args):
      return list(it.args)
    if it.op == 'dict' and len(it.args) <= 16 and all(
        k.op != 'star' for k, _ in it.args):
      return [k for k, _ in it.args]
    if it.op == 'call' and it.args[0].op == 'ref':
      n = it.args[0].args[0]
      a = it.args[1]
      if n == 'builtins.enumerate' and a:
        xs = self._literal_items(a[0])
        if xs is not None:
          return [mk('tuple', const(i), x) for i, x in enumerate(xs)]
      if n == 'builtins.zip' and a:
        xs = [self._literal_items(x) for x in a]
        if all(x is not None for x in xs):
          return [mk('tuple', *r) for r in zip(*xs)]
      if n == 'builtins.range' and all(is_const(x) for x in a):
        try:
          r = list(range(*[x.args[0] for x in a]))
        except TypeError:
          return None
        if len(r) <= 12:
          return [const(i) for i in r]
      if n in ('builtins.list', 'builtins.tuple', 'builtins.reversed') and len(
          a) == 1:
        xs = self._literal_items(a[0])
        if xs is not None:
          return list(reversed(xs)) if n.endswith('reversed') else xs
    if it.op == 'call' and it.args[0].op == 'attr' and it.args[0].args[
        1] in ('items', 'keys', 'values') and not it.args[1]:
      b = it.args[0].args[0]
      if b.op == 'dict' and len(b.args) <= 16 and all(
          k.op != 'star' for k, _ in b.args):
        w = it.args[0].args[1]
        return [mk('tuple', k, v) if w == 'items' else k if w == 'keys' else v
                for k, v in b.args]
    return None

  def _elem(self, it):
    """(element term, iterators, filter guard) for iterating over `it`."""
    if it.op == 'comp' and it.args[1] is not None and it.args[0] in (
        'list', 'set'):
      return it.args[1], it.args[2], it.args[3]
    if it.op == 'call' and it.args[0].op == 'ref':
      n = it.args[0].args[0]
      a = it.args[1]
      if n == 'builtins.enumerate' and len(a) == 1:
        e, its, g = self._elem(a[0])
        return mk('tuple', mk('idx', a[0]), e), its, g
      if n == 'builtins.zip' and len(a) >= 1 and not any(
          x.op == 'star' for x in a):
        es = [self._elem(x) for x in a]
        es = [e if e[2] is TRUE and len(e[1]) == 1 else (mk('elem', x),)
              for e, x in zip(es, a)]
        return (mk('tuple', *[e[0] for e in es]), (it,), TRUE)
      if n in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(
          a) == 1:
        return self._elem(a[0])
      if n == 'builtins.range' and len(a) == 1 and a[0].op == 'call' and a[
          0].args[0].op == 'ref' and a[0].args[0].args[0] == 'builtins.len':
        x = a[0].args[1][0]
        return mk('idx', x), (x,), TRUE
    if it.op == 'call' and it.args[0].op == 'attr' and not it.args[1]:
      b, w = it.args[0].args
      if w == 'items':
        return mk('tuple', mk('elem', b), index(b, mk('elem', b))), (b,), TRUE
      if w == 'keys':
        return mk('elem', b), (b,), TRUE
      if w == 'values':
        return index(b, mk('elem', b)), (b,), TRUE
    return mk('elem', it), (it,), TRUE

  def _for(self, target, it, body, orelse, st, fr, node):
    has_break = _has_break(body)
    lits = self._literal_items(it)
    if lits is not None and not has_break:
      for x in lits:
        if st.dead:
          return
        self.assign(target, x, st, fr, node)
        fr.continues.append([])
        base = st.guard
        self.block(body, st, fr)
        self._join(st, fr.continues.pop(), base)
      if orelse and not st.dead:
        self.block(orelse, st, fr)
      return
    if it.op == 'ite' and it.args[1].op != it.args[2].op and False:
      pass
    e, its, g = self._elem(it)

    def enter(bst):
      self.assign(target, e, bst, fr, node)
      if g is not TRUE:
        bst.guard = b_and(bst.guard, g)
    self._loop(enter, body, orelse, its, st, fr, node, has_break, filt=g)

  def s_While(self, s, st, fr):
    h = s.body[0]
    if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and \
        isinstance(h, ast.If) and isinstance(h.body[0], ast.Break):
      # while True: if c: break; rest
      rest = h.orelse + s.body[1:] or [ast.Pass()]
      s = ast.copy_location(ast.While(
          ast.UnaryOp(ast.Not(), h.test), rest, []), s)
      ast.fix_missing_locations(s)
    has_break = _has_break(s.body)
    w = mk('while', LOOPS.n)

    def enter(bst):
      c = self.cond(s.test, bst, fr)
      bst.guard = b_and(bst.guard, c)
      self._while_cond = c
    self._loop(enter, s.body, s.orelse, (w,), st, fr, s, has_break, is_while=True)

  def _loop(self, enter, body, orelse, its, st, fr, node, has_break,
            is_while=False, filt=TRUE):
    base = st.guard
    loopid = LOOPS.n
    LOOPS.n += 1
    saved_loops = self.loops
    # 1. dry pass: which locations does the body write?
    ev_mark = len(self.events)
    ret_mark = len(fr.returns)
    exits = fr.__dict__.setdefault('exits', [])
    ex_mark = len(exits)
    raised = fr.__dict__.setdefault('raised', [])
    rs_mark = len(raised)
    tr_marks = [len(t[4]) for t in self.trys]
    ntry, nframes = self.ntry, self.nframes
    self.dry += 1
    dst = st.copy()
    self.loops = saved_loops + tuple((loopid, i) for i in its)
    fr.breaks.append([])
    fr.continues.append([])
    enter(dst)
    self.block(body, dst, fr)
    self._join(dst, fr.continues.pop(), base)
    self._join(dst, fr.breaks.pop(), base)
    del self.events[ev_mark:]
    del fr.returns[ret_mark:]
    del exits[ex_mark:]
    del raised[rs_mark:]
    for t, m in zip(self.trys, tr_marks):
      del t[4][m:]
    self.dry -= 1
    changed = []
    if not dst.dead:
      for fid in st.frames:
        for n, v in st.frames[fid].items():
          w = dst.frames.get(fid, {}).get(n, v)
          if w is not v:
            changed.append(('f', fid, n))
      for k, w in dst.heap.items():
        v = st.heap.get(k)
        if v is None:
          v = self._attr_default(k)
        if w is not v:
          changed.append(('h', k))
    # 2. real pass with loop-carried variables abstracted
    bst = st.copy()
    init, mus = {}, {}
    root = {key: self._linked(key, changed, st) for key in changed}
    same = [k for k in changed if root[k] != k]
    changed = [k for k in changed if root[k] == k]
    for key in changed:
      init[key] = self._get(st, key)
      name = _keyname(key)
      while any(m.args[1] == name for m in mus.values()):
        name += "'"
      mus[key] = mk('mu', loopid, name, init[key])
      self._put(bst, key, mus[key])
    for key in same:
      self._put(bst, key, mus[root[key]])
    fr.breaks.append([])
    fr.continues.append([])
    enter(bst)
    wcond = getattr(self, '_while_cond', None) if is_while else None
    body_guard = bst.guard
    self.block(body, bst, fr)
    self._join(bst, fr.continues.pop(), base)
    brks = fr.breaks.pop()
    self.loops = saved_loops
    # returns / raises inside the body
    exist_conds = []
    its_t = its[0] if len(its) == 1 else mk('tuple', *its)
    for lst, mark in ((fr.returns, ret_mark), (exits, ex_mark)):
      for i in range(mark, len(lst)):
        gg, v = lst[i]
        r = rel_guard(gg, base)
        ex = self._exists(its_t, r)
        lst[i] = (b_and(base, ex), v)
        if lst is fr.returns:
          exist_conds.append(ex)
    for i in range(rs_mark, len(raised)):
      r = rel_guard(raised[i], base)
      ex = self._exists(its_t, r)
      raised[i] = b_and(base, ex)
      exist_conds.append(ex)
    for t, m in zip(self.trys, tr_marks):
      for i in range(m, len(t[4])):
        ex = self._exists(its_t, rel_guard(t[4][i], base))
        t[4][i] = b_and(base, ex)
        exist_conds.append(ex)
    # new values
    brk_cond = None
    if brks:
      self._join_breaks(bst, brks, base)
      brk_cond = b_or(*[rel_guard(g, base) for g, _ in brks])
    if not bst.dead or brks:
      for key in changed:
        step = self._get(bst, key)
        if filt is not TRUE:
          # elements that are filtered out leave everything as it is
          step = ite(filt, step, mus[key])
        out = self._summarise(init[key], step, mus[key], mus, its, loopid,
                              rel_guard(body_guard, base), brk_cond, wcond)
        self._put(st, key, out)
      for key in same:
        self._put(st, key, self._get(st, root[key]))
      # variables first defined in the body
      for fid in st.frames:
        for n, v in bst.frames.get(fid, {}).items():
          if n not in st.frames[fid]:
            st.frames[fid][n] = mk('last', v, its_t, loopid)
    st.guard = b_and(base, *[b_not(x) for x in exist_conds])
    if is_while and wcond is TRUE and not brks:
      st.guard = FALSE
    if orelse and not st.dead:
      g0 = st.guard
      if brk_cond is not None:
        st.guard = b_and(g0, b_not(self._exists(its_t, brk_cond)))
      self.block(orelse, st, fr)
      if brk_cond is not None and not st.dead:
        st.guard = g0

  def _linked(self, key, changed, st):
    """The variable of a caller that a helper's parameter names."""
    while key[0] == 'f':
      link = self.frames[key[1]].links.get(key[2]) if key[
          1] in self.frames else None
      if link is None:
        break
      e, fr = link
      if isinstance(e, ast.Name):
        fid = fr.fid
        while fid is not None and e.id not in st.frames.get(fid, {}):
          fid = self.frames[fid].parent
        k = ('f', fid, e.id)
      else:
        k = ('h', (self.expr(e.value, st, fr, quiet=True), e.attr))
      if k not in changed or self._get(st, k) is not self._get(st, key):
        break
      key = k
    return key

  def _exists(self, it, cond):
    return exists(it, cond)

  def _get(self, st, key):
    if key[0] == 'f':
      return st.frames.get(key[1], {}).get(key[2], UNDEF)
    v = st.heap.get(key[1])
    return v if v is not None else self._attr_default(key[1])

  def _put(self, st, key, v):
    if key[0] == 'f':
      st.frames[key[1]][key[2]] = v
    else:
      st.heap[key[1]] = v

  def _join(self, st, states, base):
    for g, s in states:
      if s.dead:
        continue
      if st.dead:
        st.become(s)
        continue
      c = rel_guard(g, base)
      o = st.copy()
      st.become(s)
      self._merge(st, o, c, base)

  def _join_breaks(self, st, states, base):
    self._join(st, states, base)

  def _summarise(self, init, step, mu, mus, its, loopid, body_guard, brk, wcond):
    other = set(mus.values())
    if step is mu:
      return init
    if brk is None and wcond is None:
      LOOP_STEPS[loopid, mu.args[1]] = (init, step, its[0] if len(
          its) == 1 else mk('tuple', *its), TRUE)
      r = self._accum(init, step, mu, other, its)
      if r is not None:
        return r
    if brk is None and wcond is None and init is const(1) and step.op == 'mul':
      # a product of all elements
      k = [x for x in step.args if x is not mu]
      if len(k) == len(step.args) - 1 == 1 and not subterms(k[0]) & other:
        return self.product(mk_comp('list', k[0], its, TRUE))
    its_t = its[0] if len(its) == 1 else mk('tuple', *its)
    if brk is not None and wcond is not None:
      its_t = mk('while', loopid, wcond)
    LOOP_STEPS[loopid, mu.args[1]] = (init, step, its_t, brk if brk is not None
                                      else wcond if wcond is not None else TRUE)
    return mk('loopout', init, step, its_t, brk if brk is not None else
              (wcond if wcond is not None else TRUE), mu, loopid)

  def _accum(self, init, step, mu, other, its):
    def free(t):
      return not (subterms(t) & other)

    g, s = TRUE, _one_store(step, mu)
    # ite(g, acc(mu), mu) ; possibly nested
    for _ in range(6):
      if s.op == 'ite' and s.args[2] is mu:
        g = b_and(g, s.args[0])
        s = s.args[1]
      elif s.op == 'ite' and s.args[1] is mu:
        g = b_and(g, b_not(s.args[0]))
        s = s.args[2]
      else:
        break
    if not free(g):
      return None
    if s.op == 'concat' and s.args[0] is mu:
      rest = concat(*s.args[1:]) if len(s.args) > 2 else s.args[1]
      if not free(rest):
        return None
      if rest.op == 'list' and len(rest.args) == 1:
        c = mk_comp('list', rest.args[0], its, g)
      elif rest.op == 'comp' and rest.args[0] == 'list':
        c = mk_comp('list', rest.args[1], its + rest.args[2],
                    b_and(g, rest.args[3]))
      else:
        c = mk_comp('flat', rest, its, g)
      if init.op == 'list' and not init.args:
        return c
      return concat(init, c)
    if s.op == 'concat' and len(s.args) == 1:
      return None
    if s.op == 'list' and s.args and s.args[0].op == 'star' and s.args[0].args[
        0] is mu and len(s.args) == 2 and free(s.args[1]):
      c = mk_comp('list', s.args[1], its, g)
      return c if init.op == 'list' and not init.args else concat(init, c)
    if s.op == 'setitem' and s.args[0] is mu and free(s.args[1]) and free(
        s.args[2]):
      c = mk_comp('dict', mk('tuple', s.args[1], s.args[2]), its, g)
      if init.op == 'dict' and not init.args:
        return c
      return mk('merge', init, c)
    if s.op == 'merge' and s.args[0] is mu and len(s.args) == 2 and free(
        s.args[1]):
      x = s.args[1]
      if x.op == 'comp' and x.args[0] == 'dict':
        c = mk_comp('dict', x.args[1], its + x.args[2], b_and(g, x.args[3]))
        if init.op == 'dict' and not init.args:
          return c
        return mk('merge', init, c)
    if s.op == 'setadd' and s.args[0] is mu and free(s.args[1]):
      c = mk_comp('set', s.args[1], its, g)
      if init.op in ('set', 'dict') and not init.args or _is_empty_set(init):
        return c
      return mk('setunion', init, c)
    if s.op == 'add' and mu in s.args:
      rest = [x for x in s.args if x is not mu]
      if len(rest) == len(s.args) - 1:
        r = add(*rest)
        if free(r):
          return add(init, mk_sum(mk_comp('list', r, its, g)))
    # flags: found = True under g
    if s is TRUE and init is FALSE and free(g):
      return exists(its[0] if len(its) == 1 else mk('tuple', *its), g)
    if s is FALSE and init is TRUE and free(g):
      return b_not(exists(its[0] if len(its) == 1 else mk('tuple', *its), g))
    if step.op == 'or' and mu in step.args and init is FALSE:
      rest = b_or(*[x for x in step.args if x is not mu])
      if free(rest):
        return exists(its[0] if len(its) == 1 else mk('tuple', *its), rest)
    if step.op == 'and' and mu in step.args and init is TRUE:
      rest = b_and(*[x for x in step.args if x is not mu])
      if free(rest):
        return b_not(
            exists(its[0] if len(its) == 1 else mk('tuple', *its),
                   b_not(rest)))
    return None

  def s_Break(self, s, st, fr):
    if fr.breaks:
      fr.breaks[-1].append((st.guard, st.copy()))
    st.guard = FALSE

  def s_Continue(self, s, st, fr):
    if fr.continues:
      fr.continues[-1].append((st.guard, st.copy()))
    st.guard = FALSE

  def s_Match(self, s, st, fr):
    subj = self.expr(s.subject, st, fr)
    self._match_cases(subj, s.cases, st, fr)

  def _match_cases(self, subj, cases, st, fr):
    if not cases or st.dead:
      return
    c0 = cases[0]
    c = self._pattern_cond(subj, c0.pattern, st, fr)
    base = st.guard
    st2 = st.copy()
    st.guard = b_and(base, c)
    st2.guard = b_and(base, b_not(c))
    self.block(c0.body, st, fr)
    self._match_cases(subj, cases[1:], st2, fr)
    self._merge(st, st2, c, base)

  def _pattern_cond(self, subj, p, st, fr):
    if isinstance(p, ast.MatchValue):
      return mk_eq(subj, self.expr(p.value, st, fr))
    if isinstance(p, ast.MatchSingleton):
      return mk_is(subj, const(p.value))
    if isinstance(p, ast.MatchOr):
      return b_or(*[self._pattern_cond(subj, q, st, fr) for q in p.patterns])
    if isinstance(p, ast.MatchAs):
      c = TRUE if p.pattern is None else self._pattern_cond(
          subj, p.pattern, st, fr)
      if p.name:
        st.frames[fr.fid][p.name] = subj
      return c
    if isinstance(p, ast.MatchClass):
      return mk('isinst', subj, self.expr(p.cls, st, fr))
    return mk('match', subj, const(ast.dump(p)))

  # -- expressions ----------------------------------------------------------

  def cond(self, e, st, fr):
    """Boolean term of a test, with `and`/`or` short circuit guards."""
    if isinstance(e, ast.BoolOp):
      out = []
      g0 = st.guard
      isand = isinstance(e.op, ast.And)
      for v in e.values:
        c = self.cond(v, st, fr)
        out.append(c)
        st.guard = b_and(st.guard, c if isand else b_not(c))
        if st.guard is FALSE:
          break
      st.guard = g0
      return b_and(*out) if isand else b_or(*out)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      return b_not(self.cond(e.operand, st, fr))
    return truth(self.expr(e, st, fr))

  def expr(self, e, st, fr, quiet=False):
    if quiet:
      mark = len(self.events)
      v = self.expr(e, st, fr)
      del self.events[mark:]
      return v
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      return mk('unknown', type(e).__name__, _src_hash(e))
    return m(e, st, fr)

  def e_Constant(self, e, st, fr):
    return const(e.value)

  def e_Name(self, e, st, fr):
    return self.lookup(e.id, st, fr)

  def lookup(self, name, st, fr):
    fid = fr.fid
    while fid is not None:
      d = st.frames.get(fid)
      if d is not None and name in d:
        return d[name]
      f = self.frames.get(fid)
      fid = f.parent if f is not None else None
    if name not in fr.module.names and name not in _BUILTINS:
      # a closure applied after its function returned on every path
      fid = fr.fid
      while fid is not None and self.frames.get(fid) is not None:
        f = self.frames[fid]
        if name in f.lastval:
          return f.lastval[name]
        fid = f.parent
    return self.module_name(fr.module, name)

  def module_name(self, m, name):
    k = m.names.get(name)
    if k is None:
      if name in _BUILTINS:
        return ref('builtins.' + name)
      return ref(f'{m.name}.{name}')
    kind, v = k
    if kind == 'import':
      return self._dotted(v)
    if kind == 'func':
      return ref(v.qual)
    if kind == 'class':
      return ref(v.qual)
    if kind == 'assign':
      return self._module_const(m, name, v)
    return ref(f'{m.name}.{name}')

  def _module_const(self, m, name, expr):
    key = (m.name, name)
    if key in self._const_busy:
      return ref(f'{m.name}.{name}')
    self._const_busy.add(key)
    try:
      if _simple_expr(expr):
        fr = Frame(-1, None, m, FuncVal(_EMPTY_FN, m, None, None, m.name), None,
                   None)
        st = State()
        st.frames[-1] = {}
        mark = len(self.events)
        v = self.expr(expr, st, fr)
        del self.events[mark:]
        return v
    finally:
      self._const_busy.discard(key)
    return ref(f'{m.name}.{name}')

  def _dotted(self, dotted):
    r = self.p.resolve(dotted) if dotted.startswith('t5x') else None
    if r is not None:
      if r[0] == 'module':
        return ref(r[1].name)
      if r[0] in ('func', 'class', 'method'):
        return ref(r[1].qual)
      if r[0] == 'assign':
        m, ex = r[1]
        return self._module_const(m, dotted.rsplit('.', 1)[-1], ex)
    return ref(canon.name(dotted))

  def e_Attribute(self, e, st, fr):
    b = self.expr(e.value, st, fr)
    return self.getattr(b, e.attr, st, fr, e)

  def getattr(self, b, name, st, fr, node):
    v = st.heap.get((b, name))
    if v is not None:
      return v
    if b.op == 'ref':
      d = b.args[0] + '.' + name
      if d.startswith('t5x'):
        return self._dotted(d)
      return attr(b, name)
    cls = self._class_of(b)
    if cls is not None:
      m = self.p.find_method(cls, name)
      if m is not None and m.has_decorator('property', 'cached_property'):
        if m.qual not in self.opaque and not _abstract(m) and len(
            self.stack) < MAX_DEPTH and m not in self.stack:
          if self._should_inline(m):
            ps = m.params()
            self.cls_of[b] = cls
            r, cfr = self._eval_function(m, {ps[0]: b}, st, cls, b)
            self._propagate(cfr, fr, st)
            return r
      if b.op == 'call':
        f = self._ctor_field(b, cls, name)
        if f is not None:
          return f
    if b.op == 'ite' and (b.args[1].op in ('call', 'ref') or
                          b.args[2].op in ('call', 'ref')):
      c, x, y = b.args
      xa = self.getattr(x, name, st, fr, node)
      ya = self.getattr(y, name, st, fr, node)
      if xa.op != 'attr' or ya.op != 'attr':
        return ite(c, xa, ya)
    return attr(b, name)

  def _ctor_field(self, b, cls, name):
    fields = self.p.class_fields(cls)
    if name in fields and (cls.is_dataclass() or _namedtuple_like(cls)
                           or _flax_struct(self.p, cls)):
      for k, v in b.args[2]:
        if k == name:
          return v
    return None

  def _class_of(self, t):
    c = self.cls_of.get(t)
    if c is not None:
      return c
    if t.op == 'call' and t.args[0].op == 'ref':
      n = t.args[0].args[0]
      if n.startswith('t5x'):
        r = self.p.resolve(n)
        if r and r[0] == 'class':
          return r[1]
    if t.op == 'call' and t.args[0].op == 'cls':
      return t.args[0].args[0]
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in (
        'replace', '_replace'):
      return self._class_of(t.args[0].args[0])
    return None

  def _attr_class(self, t):
    """Class of an attribute that setup() of its object's class creates."""
    cls = self._class_of(t.args[0])
    setup = cls and self.p.find_method(cls, 'setup')
    if not setup:
      return None
    out = set()
    for x in ast.walk(setup.node):
      if isinstance(x, ast.Assign) and any(
          isinstance(y, ast.Attribute) and y.attr == t.args[1]
          for y in x.targets):
        if not isinstance(x.value, ast.Call):
          return None
        out.add(self.p.resolve_in(setup.module, ast.unparse(x.value.func)))
    return out.pop() if len(out) == 1 else None

  def e_Subscript(self, e, st, fr):
    b = self.expr(e.value, st, fr)
    if isinstance(e.slice, ast.Slice):
      lo = self.expr(e.slice.lower, st, fr) if e.slice.lower else NONE
      hi = self.expr(e.slice.upper, st, fr) if e.slice.upper else NONE
      sp = self.expr(e.slice.step, st, fr) if e.slice.step else NONE
      return self._slice(b, lo, hi, sp)
    i = self.expr(e.slice, st, fr)
    # x[idx(x)] -> elem(x)
    if i.op == 'idx' and i.args[0] is b:
      return self._elem(b)[0]
    return index(b, i)

  def _slice(self, b, lo, hi, sp):
    if b.op in ('tuple', 'list') and all(
        x.op == 'const' and (x.args[0] is None or isinstance(x.args[0], int))
        for x in (lo, hi, sp)) and not any(a.op == 'star' for a in b.args):
      return mk(b.op, *b.args[slice(lo.args[0], hi.args[0], sp.args[0])])
    return mk('sub', b, mk('slice', lo, hi, sp))

  def e_Slice(self, e, st, fr):
    return mk('slice',
              *[self.expr(x, st, fr) if x else NONE
                for x in (e.lower, e.upper, e.step)])

  def e_Tuple(self, e, st, fr):
    return mk('tuple', *self._elts(e.elts, st, fr))

  def e_List(self, e, st, fr):
    xs = self._elts(e.elts, st, fr)
    if len(xs) == 1 and xs[0].op == 'star' and xs[0].args[0].op in ('comp',
                                                                    'list'):
      return xs[0].args[0]
    if any(x.op == 'star' for x in xs):
      parts = []
      for x in xs:
        parts.append(x.args[0] if x.op == 'star' else mk('list', x))
      return concat(*parts) if len(parts) > 1 else mk('list', *xs)
    return mk('list', *xs)

  def e_Set(self, e, st, fr):
    xs = self._elts(e.elts, st, fr)
    return mk('set', *sorted(set(xs), key=sort_key))

  def _elts(self, elts, st, fr):
    out = []
    for x in elts:
      if isinstance(x, ast.Starred):
        v = self.expr(x.value, st, fr)
        if v.op in ('tuple', 'list'):
          out.extend(v.args)
        else:
          out.append(mk('star', v))
      else:
        out.append(self.expr(x, st, fr))
    return out

  def e_Starred(self, e, st, fr):
    return mk('star', self.expr(e.value, st, fr))

  def e_Dict(self, e, st, fr):
    cur = mk('dict')
    for k, v in zip(e.keys, e.values):
      if k is None:
        x = self.expr(v, st, fr)
        cur = self.merge_dict(cur, x)
      else:
        kk = self.expr(k, st, fr)
        vv = self.expr(v, st, fr)
        cur = self._dict_put(cur, kk, vv)
    return cur

  def _dict_put(self, cur, k, v):
    if cur.op == 'dict':
      items = [(x, y) for x, y in cur.args if x is not k] + [(k, v)]
      if all(x.op == 'const' for x, _ in items):
        items = _sort_items(items)
      return mk('dict', *items)
    return self.setitem(cur, k, v)

  def merge_dict(self, a, b):
    if b.op == 'call' and b.args[0].op == 'ref' and b.args[0].args[
        0] == 'builtins.dict' and not b.args[1]:
      b = mk('dict', *_sort_items([(const(k), v) for k, v in b.args[2]]))
    if a.op == 'dict' and not a.args:
      return b
    if b.op == 'setitem' and _written(b) is not None:
      cur = a
      for k, v in _written(b):
        cur = self._dict_put(cur, k, v)
      return cur
    if b.op == 'dict':
      cur = a
      for k, v in b.args:
        cur = self._dict_put(cur, k, v)
      return cur
    if b.op == 'ite' and a.op != 'mu':
      c, x, y = b.args
      if x.op == 'dict' or y.op == 'dict':
        return ite(c, self.merge_dict(a, x), self.merge_dict(a, y))
    if a.op == 'merge':
      return mk('merge', *(a.args + (b,)))
    return mk('merge', a, b)

  def e_BinOp(self, e, st, fr):
    a = self.expr(e.left, st, fr)
    b = self.expr(e.right, st, fr)
    return self.binop(e.op, a, b)

  def product(self, xs):
    """math.prod(xs)."""
    if xs.op in ('list', 'tuple') and not any(x.op == 'star' for x in xs.args):
      r = const(1)
      for x in xs.args:
        r = x if r is const(1) else self.binop(ast.Mult(), r, x)
      return r
    if xs.op == 'ite':
      return ite(xs.args[0], self.product(xs.args[1]), self.product(xs.args[2]))
    return mk('call', ref('math.prod'), (xs,), ())

  def binop(self, op, a, b):
    n = type(op).__name__
    if n == 'Add':
      if a.op == 'mu' and b.op in ('list', 'comp', 'concat'):
        return concat(a, b)
      return add(a, b)
    if n == 'Sub':
      return add(a, neg(b)) if not _is_setlike(a) else mk('setdiff', a, b)
    if n == 'Mult':
      if a.op in ('list', 'tuple') or b.op in ('list', 'tuple') or (
          a.op == 'const' and isinstance(a.args[0], str)):
        return mk('repeat', a, b)
      return mul(a, b)
    if n == 'Mod' and (a.op == 'fmt' or
                       a.op == 'const' and isinstance(a.args[0], str)):
      return _percent(a, b)
    if n == 'BitOr':
      if a.op == 'dict' or b.op == 'dict':
        return self.merge_dict(a, b)
      xs = sorted((a, b), key=sort_key)
      return mk('bitor', *xs)
    if n == 'BitAnd':
      xs = sorted((a, b), key=sort_key)
      return mk('bitand', *xs)
    if a.op == 'const' and b.op == 'const':
      try:
        import operator as o
        f = {'FloorDiv': o.floordiv, 'Mod': o.mod, 'Pow': o.pow,
             'LShift': o.lshift, 'RShift': o.rshift, 'Div': o.truediv,
             'BitXor': o.xor}[n]
        if n == 'Pow' and abs(b.args[0]) > 64:
          raise KeyError
        return const(f(a.args[0], b.args[0]))
      except Exception:  # pylint: disable=broad-except
        pass
    return mk(n.lower(), a, b)

  def e_UnaryOp(self, e, st, fr):
    if isinstance(e.op, ast.Not):
      return b_not(self.cond(e.operand, st, fr))
    v = self.expr(e.operand, st, fr)
    if isinstance(e.op, ast.USub):
      return neg(v)
    if isinstance(e.op, ast.Invert):
      return v.args[0] if v.op == 'invert' else mk('invert', v)
    return v

  def e_BoolOp(self, e, st, fr):
    isand = isinstance(e.op, ast.And)
    g0 = st.guard
    vals = []
    for v in e.values:
      x = self.expr(v, st, fr)
      vals.append(x)
      st.guard = b_and(st.guard, truth(x) if isand else b_not(truth(x)))
      if st.guard is FALSE:
        break
    st.guard = g0
    if all(is_bool(v) for v in vals):
      return b_and(*vals) if isand else b_or(*vals)
    r = vals[-1]
    for v in reversed(vals[:-1]):
      r = ite(truth(v), r, v) if isand else ite(truth(v), v, r)
    return r

  def e_Compare(self, e, st, fr):
    left = self.expr(e.left, st, fr)
    out = []
    for op, r in zip(e.ops, e.comparators):
      right = self.expr(r, st, fr)
      out.append(self.compare(op, left, right))
      left = right
    return out[0] if len(out) == 1 else b_and(*out)

  def compare(self, op, a, b):
    n = type(op).__name__
    if n == 'Eq':
      return mk_eq(a, b)
    if n == 'NotEq':
      return b_not(mk_eq(a, b))
    if n == 'Is':
      return mk_is(a, b)
    if n == 'IsNot':
      return b_not(mk_is(a, b))
    if n == 'Lt':
      return mk_lt(a, b)
    if n == 'Gt':
      return mk_lt(b, a)
    if n == 'GtE':
      return b_not(mk_lt(a, b))
    if n == 'LtE':
      return b_not(mk_lt(b, a))
    if n == 'In':
      return self._in(a, b)
    if n == 'NotIn':
      return b_not(self._in(a, b))
    return mk(n.lower(), a, b)

  def _in(self, a, b):
    if b.op in ('list', 'tuple', 'set') and len(b.args) <= 12 and not any(
        x.op == 'star' for x in b.args):
      return b_or(*[mk_eq(a, x) for x in b.args])
    if b.op == 'dict' and all(k.op == 'const' for k, _ in b.args):
      if a.op == 'const':
        return TRUE if any(k is a for k, _ in b.args) else FALSE
      if len(b.args) <= 12:
        return b_or(*[mk_eq(a, k) for k, _ in b.args])
    if b.op == 'call' and b.args[0].op == 'attr' and b.args[0].args[
        1] == 'keys' and not b.args[1]:
      b = b.args[0].args[0]
    if b.op == 'call' and b.args[0].op == 'ref' and b.args[0].args[0] in (
        'builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.sorted',
        'builtins.frozenset') and len(b.args[1]) == 1:
      return self._in(a, b.args[1][0])
    if b.op == 'comp' and b.args[0] in ('list', 'set'):
      its = b.args[2]
      return exists(its[0] if len(its) == 1 else mk('tuple', *its),
                    b_and(b.args[3], mk_eq(a, b.args[1])))
    return mk_in(a, b)

  def e_IfExp(self, e, st, fr):
    c = self.cond(e.test, st, fr)
    if c is TRUE:
      return self.expr(e.body, st, fr)
    if c is FALSE:
      return self.expr(e.orelse, st, fr)
    base = st.guard
    st2 = st.copy()
    st.guard = b_and(base, c)
    st2.guard = b_and(base, b_not(c))
    a = self.expr(e.body, st, fr) if not st.dead else UNDEF
    b = self.expr(e.orelse, st2, fr) if not st2.dead else UNDEF
    if a is UNDEF:
      st.become(st2)
      st.guard = base
      return b
    if b is UNDEF:
      st.guard = base
      return a
    self._merge(st, st2, c, base)
    t = ite(c, a, b)
    if t is not a and t is not b and t.op == 'call':
      # the choice is d.get(k, v)
      self._emit('call', t, st, e, t.args[0], t.args[1], ())
    return t

  def e_NamedExpr(self, e, st, fr):
    v = self.expr(e.value, st, fr)
    self.assign(e.target, v, st, fr, e)
    return v

  def e_Lambda(self, e, st, fr):
    return self._closure(e, fr)

  def e_Await(self, e, st, fr):
    v = self.expr(e.value, st, fr)
    self._emit('await', v, st, e)
    return v

  def e_Yield(self, e, st, fr):
    fr.is_gen = True
    v = self.expr(e.value, st, fr) if e.value else NONE
    self._emit('yield', v, st, e)
    return mk('sent')

  def e_YieldFrom(self, e, st, fr):
    fr.is_gen = True
    v = self.expr(e.value, st, fr)
    self._emit('yield', mk('star', v), st, e)
    return mk('sent')

  def e_JoinedStr(self, e, st, fr):
    parts = []
    for v in e.values:
      if isinstance(v, ast.Constant):
        parts.append(const(v.value))
      elif isinstance(v, ast.FormattedValue):
        x = self.expr(v.value, st, fr)
        if v.format_spec is not None:
          spec = self.expr(v.format_spec, st, fr)
          x = mk('fmtspec', x, spec)
        elif v.conversion not in (-1, 115):
          x = mk('conv', x, v.conversion)
        parts.append(x)
    return fmt(*parts)

  def e_FormattedValue(self, e, st, fr):
    return self.expr(e.value, st, fr)

  # comprehensions
  def e_ListComp(self, e, st, fr):
    return self._comp('list', e.elt, e.generators, st, fr, e)

  def e_GeneratorExp(self, e, st, fr):
    return self._comp('list', e.elt, e.generators, st, fr, e)

  def e_SetComp(self, e, st, fr):
    return self._comp('set', e.elt, e.generators, st, fr, e)

  def e_DictComp(self, e, st, fr):
    return self._comp('dict', (e.key, e.value), e.generators, st, fr, e)

  def _comp(self, kind, elt, gens, st, fr, node):
    # a comprehension has its own scope: save shadowed names
    saved = dict(st.frames[fr.fid])
    base = st.guard
    saved_loops = self.loops
    loopid = LOOPS.n
    LOOPS.n += 1
    out = None
    its_all = []
    guard = TRUE

    def value():
      if kind == 'dict':
        return mk('tuple', self.expr(elt[0], st, fr), self.expr(elt[1], st, fr))
      return self.expr(elt, st, fr)

    # literal single generator: unroll
    if len(gens) == 1:
      it = self.expr(gens[0].iter, st, fr)
      lits = self._literal_items(it)
      if lits is not None:
        items = []
        opaque = False
        for x in lits:
          self.assign(gens[0].target, x, st, fr, node)
          g = b_and(*[self.cond(c, st, fr) for c in gens[0].ifs]) if gens[
              0].ifs else TRUE
          if g is FALSE:
            continue
          st.guard = b_and(base, g)
          v = value()
          st.guard = base
          items.append((g, v))
        st.frames[fr.fid] = saved
        return self._build(kind, items)
      gl = [(gens[0], it)]
    else:
      gl = [(g, None) for g in gens]
    for g, it in gl:
      if it is None:
        it = self.expr(g.iter, st, fr)
      e, its, fg = self._elem(it)
      its_all.extend(its)
      self.loops = self.loops + tuple((loopid, i) for i in its)
      self.assign(g.target, e, st, fr, node)
      guard = b_and(guard, fg)
      for c in g.ifs:
        st.guard = b_and(base, guard)
        guard = b_and(guard, self.cond(c, st, fr))
    st.guard = inner = b_and(base, guard)
    raised = fr.__dict__.setdefault('raised', [])
    mark, tmarks = len(raised), [len(t[4]) for t in self.trys]
    v = value() if not st.dead else UNDEF
    its_t = its_all[0] if len(its_all) == 1 else mk('tuple', *its_all)
    fails = []
    for lst, m in [(raised, mark)] + [
        (t[4], m) for t, m in zip(self.trys, tmarks)]:
      for i in range(m, len(lst)):
        x = self._exists(its_t, rel_guard(lst[i], base))
        lst[i] = b_and(base, x)
        fails.append(x)
    if v is not UNDEF and not self.fatal and st.guard is not inner:
      # no value where computing it fails
      v = ite(rel_guard(st.guard, inner), v, FAILS)
    st.guard = b_and(base, *[b_not(x) for x in fails])
    self.loops = saved_loops
    for k in list(st.frames[fr.fid]):
      if k not in saved:
        if not any(isinstance(n, ast.NamedExpr) and isinstance(
            n.target, ast.Name) and n.target.id == k for n in ast.walk(node)):
          del st.frames[fr.fid][k]
      else:
        st.frames[fr.fid][k] = saved[k]
    return mk_comp(kind, v, tuple(its_all), guard)

  def _build(self, kind, items):
    if kind == 'dict':
      cur = mk('dict')
      for g, v in items:
        nxt = self._dict_put(cur, v.args[0], v.args[1])
        cur = ite(g, nxt, cur)
      return cur
    if all(g is TRUE for g, _ in items):
      vs = [v for _, v in items]
      return mk('list', *vs) if kind == 'list' else mk(
          'set', *sorted(set(vs), key=sort_key))
    cur = mk('list')
    for g, v in items:
      cur = concat(cur, ite(g, mk('list', v), mk('list'))) if g is not TRUE else (
          concat(cur, mk('list', v)))
    return cur

  # -- calls ----------------------------------------------------------------

  def e_Call(self, e, st, fr):
    # super()
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
      return mk('super', fr.fv.cls.qual if fr.fv.cls else '?',
                fr.self_term or NONE)
    # in-place mutators on tracked containers
    mutate = None
    if isinstance(e.func, ast.Attribute) and e.func.attr in _MUTATORS:
      mutate = e.func
    fn = self.expr(e.func, st, fr)
    if fn.op == 'ref' and fn.args[0] == 'builtins.dict' and len(
        e.args) == 1 and not e.keywords and isinstance(e.args[0], (
            ast.GeneratorExp, ast.ListComp)) and isinstance(
                e.args[0].elt, ast.Tuple) and len(e.args[0].elt.elts) == 2:
      # dict((k, v) for ...) is {k: v for ...}
      return self._comp('dict', tuple(e.args[0].elt.elts), e.args[0].generators,
                        st, fr, e)
    args, kw = [], []
    for a in e.args:
      if isinstance(a, ast.Starred):
        v = one_list(self.expr(a.value, st, fr))
        if v.op in ('tuple', 'list') and not any(x.op == 'star' for x in v.args):
          args.extend(v.args)
        else:
          args.append(mk('star', v))
      else:
        args.append(self.expr(a, st, fr))
    for k in e.keywords:
      v = self.expr(k.value, st, fr)
      if k.arg is None:
        v = _one_dict(v)
        if v.op == 'dict' and all(
            x.op == 'const' and isinstance(x.args[0], str) for x, _ in v.args):
          kw.extend((x.args[0], y) for x, y in v.args)
        else:
          kw.append(('**', v))
      else:
        kw.append((k.arg, v))
    if st.dead:
      return UNDEF
    if mutate is not None:
      r = self._mutator(mutate, fn, args, kw, st, fr, e)
      if r is not None:
        return r
    return self._call(fn, args, kw, st, e, fr)

  def _mutator(self, f, fn, args, kw, st, fr, node):
    if fn.op != 'attr':
      return None
    b = fn.args[0]
    name = fn.args[1]
    if b.op in ('ref', 'enter') or (b.op == 'call' and self._class_of(b)):
      return None
    cls = self._class_of(b)
    if cls is not None and self.p.find_method(cls, name):
      return None
    ev = self._emit('call', mk('call', fn, tuple(args), tuple(kw)), st, node, fn,
                    [self._reify(a, st) for a in args], kw)
    tgt = f.value
    if name == 'append' and len(args) == 1:
      self._store_back(tgt, concat(b, mk('list', args[0])), st, fr)
      return NONE
    if name == 'extend' and len(args) == 1:
      x = args[0]
      if x.op == 'tuple':
        x = mk('list', *x.args)
      self._store_back(tgt, concat(b, x), st, fr)
      return NONE
    if name == 'update' and len(args) <= 1:
      cur = b
      for a in args:
        if a.op == 'comp' and a.args[0] == 'list' and a.args[1].op == 'tuple':
          a = mk_comp('dict', *a.args[1:])
        cur = self.merge_dict(cur, a) if cur.op != 'mu' else (
            self.merge_dict(mk('dict'), a) and mk('merge', cur, a)
            if _written(a) is None else self._puts(cur, a))
      for k, v in kw:
        cur = self._dict_put(cur, const(k), v)
      self._store_back(tgt, cur, st, fr)
      return NONE
    if name == 'add' and len(args) == 1:
      if b.op == 'set':
        self._store_back(
            tgt, mk('set', *sorted(set(b.args + (args[0],)), key=sort_key)), st,
            fr)
      else:
        self._store_back(tgt, mk('setadd', b, args[0]), st, fr)
      return NONE
    if name == 'setdefault' and len(args) == 2:
      old = index(b, args[0])
      c = self._in(args[0], b)
      v = ite(c, old, args[1])
      self._store_back(tgt, ite(c, b, self.setitem(b, args[0], args[1])), st, fr)
      return v
    if name == 'pop':
      if args:
        v = index(b, args[0]) if len(args) == 1 else ite(
            self._in(args[0], b), index(b, args[0]), args[1])
        if b.op == 'dict' and args[0].op == 'const' and all(
            k.op == 'const' for k, _ in b.args):
          nb = mk('dict', *[(k, x) for k, x in b.args if k is not args[0]])
        else:
          nb = mk('delitem', b, args[0])
        self._store_back(tgt, nb, st, fr)
        return v
      if b.op == 'list' and b.args:
        self._store_back(tgt, mk('list', *b.args[:-1]), st, fr)
        return b.args[-1]
      self._store_back(tgt, mk('popped', b), st, fr)
      return index(b, const(-1))
    if name == 'reverse' and not args:
      self._store_back(tgt, mk('sub', b, mk('slice', NONE, NONE, const(-1))),
                       st, fr)
      return NONE
    if name == 'sort' and not args:
      self._store_back(tgt, self._call(ref('builtins.sorted'), (b,), tuple(kw),
                                       st, node, fr), st, fr)
      return NONE
    self._store_back(tgt, mk('mutated', b, name, tuple(args), tuple(kw)), st, fr)
    return mk('call', fn, tuple(args), tuple(kw))

  def _puts(self, cur, d):
    for k, v in _written(d):
      cur = self.setitem(cur, k, v)
    return cur

  def _should_inline(self, fv):
    q = fv.qual
    if q in self.opaque or fv.name in self.opaque:
      return False
    if q in self.inline or fv.name in self.inline:
      return True
    if fv.frame is not None:
      return True
    if q not in self.p.inventory and q.startswith('t5x.'):
      return True
    if self.no_inline_all:
      return False
    if self.inline_known is not None:
      return self.inline_known(fv)
    if fv.module is self.root_module:
      return True
    if self.root_cls is not None and fv.cls is not None and fv.cls in self.p.mro(
        self.root_cls):
      return True
    return False

  def _callable(self, fn, st):
    """-> (FuncVal, leading args, self_cls, self_term) or None."""
    if fn.op == 'fn':
      return fn.args[0], [], None, None
    if fn.op == 'ref':
      n = fn.args[0]
      if not n.startswith('t5x'):
        return None
      r = self.p.resolve(n)
      if r is None:
        return None
      if r[0] == 'func':
        return r[1], [], None, None
      if r[0] == 'method':
        m = r[1]
        if m.has_decorator('staticmethod'):
          return m, [], None, None
        if m.has_decorator('classmethod'):
          cq = n.rsplit('.', 1)[0]
          cr = self.p.resolve(cq)
          return m, [ref(cq)], cr[1] if cr else m.cls, ref(cq)
        return m, [], m.cls, None   # unbound: first arg is self
      return None
    if fn.op == 'attr':
      b, name = fn.args
      if b.op == 'super':
        cq = b.args[0]
        r = self.p.resolve(cq)
        if r and r[0] == 'class':
          selft = b.args[1]
          owner = self.cls_of.get(selft) or r[1]
          m = self.p.find_method(owner, name, after=r[1])
          if m is not None:
            return m, ([] if m.has_decorator('staticmethod') else
                       [selft]), owner, selft
        return None
      cls = self._class_of(b)
      if cls is not None:
        m = self.p.find_method(cls, name)
        if m is not None:
          if m.has_decorator('staticmethod'):
            return m, [], cls, b
          if m.has_decorator('property', 'cached_property'):
            return None
          return m, [b], cls, b
    return None

  def _call(self, fn, args, kw, st, node, fr=None):
    if fn.op == 'ite':
      c, a, b = fn.args
      base = st.guard
      st2 = st.copy()
      st.guard = b_and(base, c)
      st2.guard = b_and(base, b_not(c))
      x = self._call(a, args, kw, st, node, fr) if not st.dead else UNDEF
      y = self._call(b, args, kw, st2, node, fr) if not st2.dead else UNDEF
      if x is UNDEF and st.dead:
        st.become(st2)
        return y
      if y is UNDEF and st2.dead:
        return x
      self._merge(st, st2, c, base)
      return ite(c, x, y)
    if fn.op == 'partial':
      return self._call(fn.args[0], list(fn.args[1]) + list(args),
                        _merge_kw(fn.args[2], kw), st, node, fr)
    if fn.op == 'lam':
      n, body, _ = fn.args
      if not kw and len(args) == n and not any(a.op == 'star' for a in args):
        d = fn.args[2]
        return substitute(body, {mk('bv', d, i): a for i, a in enumerate(args)})
    if fn.op == 'ref':
      r = self._builtin(fn.args[0], args, kw, st, node, fr)
      if r is not None:
        return r
    c = self._callable(fn, st)
    if c is not None:
      fv, lead, scls, sterm = c
      full = list(lead) + list(args)
      if scls is not None and sterm is None and full:
        sterm = full[0]
      if (self._should_inline(fv) and fv not in self.stack and
          len(self.stack) < self.max_inline and not _abstract(fv)):
        bound = self._bind(fv, full, kw, st)
        if bound is not None:
          pos = self._emit('inline', ref(fv.qual), st, node, fn=ref(fv.qual),
                           args=args, kw=kw)
          if sterm is not None and scls is not None:
            known = self.cls_of.get(sterm)
            if known is None or scls not in self.p.mro(known):
              self.cls_of[sterm] = scls
          ret, cfr = self._eval_function(
              fv, bound, st, scls, sterm,
              links=self._links(fv, len(lead), node, fr))
          self._propagate(cfr, fr, st)
          return ret
      if fn.op == 'attr' and fn.args[1] == 'submit':
        return self._opaque_call(fn, args, kw, st, node, fr)
      # known callee, kept opaque: name its arguments
      nargs, nkw = self._named(fv, full, kw, lead)
      nargs = [self._reify(a, st) for a in nargs]
      nkw = [(k, self._reify(v, st)) for k, v in nkw]
      fnt = fn if fn.op in ('attr', 'ref') else ref(fv.qual)
      t = mk('call', fnt, tuple(nargs), tuple(sorted(nkw, key=lambda x: x[0])))
      self._emit('call', t, st, node, fnt, nargs, nkw, extra=fv)
      return t
    return self._opaque_call(fn, args, kw, st, node, fr)

  def _opaque_call(self, fn, args, kw, st, node, fr):
    if fn.op == 'attr' and fn.args[1] == 'submit' and args and args[0].op in (
        'fn', 'partial'):
      # executor.submit(f, *a): f(*a) is run by another thread
      saved = self.lams
      self.lams = self.lams + ('submit',)
      try:
        ret = self._call(args[0], list(args[1:]), list(kw), st.copy(), node)
      finally:
        self.lams = saved
      t = mk('call', fn, (self._reify(ret, st),), ())
      self._emit('call', t, st, node, fn, list(t.args[1]), [])
      return t
    if fn.op == 'ref':
      sig = canon.SIGS.get(fn.args[0])
      if sig and not any(a.op == 'star' for a in args) and len(args) <= len(sig):
        kw = [(sig[i], a) for i, a in enumerate(args)] + list(kw)
        args = []
      elif fn.args[0].startswith('t5x'):
        r = self.p.resolve(fn.args[0])
        if r and r[0] == 'class':
          return self._construct(fn, r[1], args, kw, st, node, fr)
    if fn.op == 'cls':
      return self._construct(fn, fn.args[0], args, kw, st, node, fr)
    if fn.op == 'attr' and fn.args[1] in ('replace', '_replace') and not args:
      base = fn.args[0]
      # obj.replace(a).replace(b) -> one replace
      if base.op == 'call' and base.args[0].op == 'attr' and base.args[0].args[
          1] == fn.args[1] and not base.args[1]:
        kw = _merge_kw(base.args[2], kw)
        fn = base.args[0]
      cls = self._class_of(fn.args[0])
      if cls is not None and fn.args[0].op == 'call' and not fn.args[0].args[1]:
        # Cls(a=1, b=2).replace(b=3) -> Cls(a=1, b=3)
        kw2 = _merge_kw(fn.args[0].args[2], kw)
        if all(k != '**' for k, _ in kw2):
          t = mk('call', fn.args[0].args[0], (),
                 tuple(sorted(((k, self._reify(v, st)) for k, v in kw2),
                              key=lambda x: x[0])))
          self._emit('call', t, st, node, fn, args, kw)
          return t
    if fn.op == 'attr' and fn.args[1] == 'format' and (
        fn.args[0].op == 'const' and isinstance(fn.args[0].args[0], str)):
      r = _format(fn.args[0].args[0], args, kw)
      if r is not None:
        return r
    if fn.op == 'attr' and fn.args[1] == 'join' and is_const(
        fn.args[0]) and len(args) == 1 and args[0].op in ('list', 'tuple'):
      parts = []
      for i, a in enumerate(args[0].args):
        if i:
          parts.append(fn.args[0])
        parts.append(a)
      return fmt(*parts)
    if fn.op == 'attr' and fn.args[1] in _STR_METHODS and fn.args[
        0].op == 'const' and isinstance(fn.args[0].args[0], str) and not kw and all(
            a.op == 'const' for a in args):
      try:
        v = getattr(fn.args[0].args[0], fn.args[1])(*[a.args[0] for a in args])
      except (TypeError, ValueError):
        v = None
      if isinstance(v, list):
        return mk('list', *[const(x) for x in v])
      if isinstance(v, (str, bool)):
        return const(v)
    if fn.op == 'attr' and fn.args[1] == 'get' and len(args) in (1, 2) and not kw:
      b = fn.args[0]
      if b.op == 'ite' and 'dict' in (b.args[1].op, b.args[2].op):
        return ite(b.args[0], *[self._opaque_call(
            attr(x, 'get'), args, kw, st, node, fr) for x in b.args[1:]])
      if b.op == 'dict' and all(k.op == 'const' for k, _ in b.args):
        d = args[1] if len(args) == 2 else NONE
        r = d
        for k, v in b.args:
          r = ite(mk_eq(args[0], k), v, r)
        return r
      args = [a for i, a in enumerate(args) if not i or a is not NONE]
    if fn.op == 'attr' and fn.args[1] == 'copy' and not args and not kw:
      if fn.args[0].op in ('dict', 'setitem', 'comp', 'merge', 'list', 'mu'):
        return fn.args[0]
    cls = self.cls_of.get(fn) if fn.op == 'call' else (
        self._attr_class(fn) if fn.op == 'attr' else None)
    call = cls and self.p.find_method(cls, '__call__')
    if call:
      args, kw = self._named(call, [fn] + list(args), kw, [fn])
    rargs = [self._reify(a, st) for a in args]
    rkw = [(k, self._reify(v, st)) for k, v in kw]
    fn2 = self._reify(fn, st) if fn.op == 'fn' else fn
    t = mk('call', fn2, tuple(rargs),
           tuple(sorted(rkw, key=lambda x: x[0])))
    self._emit('call', t, st, node, fn2, rargs, rkw)
    return t

  def _construct(self, fn, cls, args, kw, st, node, fr):
    init = self.p.find_method(cls, '__init__')
    names = None
    if init is not None:
      names = init.params()[1:]
    elif cls.is_dataclass() or self.p.class_fields(cls):
      names = self.p.class_fields(cls)
    if names and not any(a.op == 'star' for a in args) and len(args) <= len(
        names):
      kw = [(names[i], a) for i, a in enumerate(args)] + list(kw)
      args = []
    rargs = [self._reify(a, st) for a in args]
    rkw = [(k, self._reify(v, st)) for k, v in kw]
    t = mk('call', fn, tuple(rargs), tuple(sorted(rkw, key=lambda x: x[0])))
    self.cls_of[t] = cls
    self._emit('call', t, st, node, fn, rargs, rkw)
    return t

  def _named(self, fv, full, kw, lead):
    """Positional -> keyword for a known callee (self kept implicit)."""
    args = full[len(lead):]
    if any(a.op == 'star' for a in args) or fv.node.args.posonlyargs:
      return args, list(kw)
    names = fv.params()[len(lead):]
    if len(args) <= len(names):
      return [], [(names[i], a) for i, a in enumerate(args)] + list(kw)
    if fv.node.args.vararg:
      return args[len(names):], [(names[i], a) for i, a in enumerate(
          args[:len(names)])] + list(kw)
    return args, list(kw)

  def _bind(self, fv, args, kw, st):
    a = fv.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    bound = {}
    star = None
    pos = []
    for x in args:
      if x.op == 'star':
        star = x.args[0]
        break
      pos.append(x)
    for n, v in zip(names, pos):
      bound[n] = v
    if len(pos) > len(names):
      if not a.vararg:
        return None
      bound[a.vararg.arg] = mk('tuple', *pos[len(names):])
      if star is not None:
        return None
    elif star is not None:
      for j, n in enumerate(names[len(pos):]):
        bound[n] = index(star, const(j))
      if a.vararg:
        bound[a.vararg.arg] = self._slice(star, const(len(names) - len(pos)),
                                          NONE, NONE) if len(
                                              names) > len(pos) else star
    elif a.vararg:
      bound[a.vararg.arg] = mk('tuple')
    konly = [p.arg for p in a.kwonlyargs]
    extra = []
    dd = None
    for k, v in kw:
      if k == '**':
        dd = v
      elif k in names or k in konly:
        bound[k] = v
      else:
        extra.append((k, v))
    if a.kwarg:
      d = mk('dict', *_sort_items([(const(k), v) for k, v in extra]))
      if dd is not None:
        d = self.merge_dict(d, dd) if d.args else dd
      bound[a.kwarg.arg] = d
    elif extra:
      return None
    # defaults
    dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    dfl.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults)
                if d is not None})
    for n in names + konly:
      if n in bound and star is None:
        continue
      if n in bound:
        continue
      if dd is not None and n not in bound:
        v = index(dd, const(n))
        if n in dfl:
          v = ite(self._in(const(n), dd), v, self._default(fv, dfl[n], st))
        bound[n] = v
      elif n in dfl:
        bound[n] = self._default(fv, dfl[n], st)
      else:
        return None
    return bound

  def _default(self, fv, expr, st):
    fr = Frame(-2, fv.frame, fv.module, fv, fv.cls, None)
    st.frames[-2] = {}
    saved = self.frames.get(-2)
    self.frames[-2] = fr
    v = self.expr(expr, st, fr, quiet=True)
    st.frames.pop(-2, None)
    if saved is None:
      self.frames.pop(-2, None)
    else:
      self.frames[-2] = saved
    return v

  def _reify(self, t, st):
    """Function values that escape become canonical lambda terms."""
    if t.op == 'fn':
      return self._lamify(t, st)
    if t.op == 'partial':
      lamable = t.args[0].op == 'fn'
      if t.args[0].op in ('ref', 'attr'):
        c = self._callable(t.args[0], st)
        lamable = c is not None and self._lamable(c[0])
      if lamable and not any(
          a.op == 'star' for a in t.args[1]) and not any(
              k == '**' for k, _ in t.args[2]):
        x = self._lamify(t.args[0], st, t.args[1], t.args[2])
        if x.op == 'lam':
          return x
      f = self._reify(t.args[0], st)
      return mk('partial', f, tuple(self._reify(a, st) for a in t.args[1]),
                tuple((k, self._reify(v, st)) for k, v in t.args[2]))
    if t.op in ('ref', 'attr'):
      c = self._callable(t, st)
      if c is not None:
        if self._lamable(c[0]):
          return self._lamify(t, st)
      return t
    if t.op in ('tuple', 'list', 'dict', 'ite', 'comp', 'concat') and any(
        x.op in ('fn', 'partial') for x in subterms(t)):
      def g(a):
        if isinstance(a, T):
          return self._reify(a, st)
        if isinstance(a, tuple):
          return tuple(g(x) for x in a)
        return a
      return rebuild(t.op, tuple(g(a) for a in t.args))
    return t

  def _lamable(self, fv):
    if fv.qual not in self.p.inventory and fv.qual.startswith('t5x'):
      return True
    return (self._should_inline(fv) and fv not in self.stack and
            not _abstract(fv) and len(self.stack) < self.max_inline)

  def _lamify(self, t, st, pre=(), prekw=()):
    c = self._callable(t, st)
    if c is None:
      return t
    fv, lead, scls, sterm = c
    if pre or prekw:
      ps = self._all_params(fv)
      kw = fv.node.args.kwarg
      if kw is not None and not any(
          isinstance(n, ast.Name) and n.id == kw.arg
          for n in ast.walk(fv.node)):
        # collected and never looked at
        prekw = [(k, v) for k, v in prekw if k in ps]
      if len(lead) + len(pre) > len(fv.params()) or any(
          k not in ps for k, _ in prekw):
        return t
      lead = list(lead) + list(pre)
    if fv in self.stack or len(self.stack) >= self.max_inline:
      return ref(fv.qual)
    prekw = dict(prekw)
    # a captured value as default (late-binding idiom x=x) is that value
    a0 = fv.node.args
    if fv.frame is not None and a0.defaults:
      ps0 = [p.arg for p in a0.posonlyargs + a0.args]
      for p0, df in list(zip(reversed(ps0), reversed(a0.defaults))):
        if p0 in prekw or p0 in ps0[:len(lead)] or not isinstance(
            df, ast.Name):
          break
        prekw[p0] = self._default(fv, df, st)
    names = [p for p in fv.params()[len(lead):] if p not in prekw]
    if fv.node.args.vararg:
      names_va = fv.node.args.vararg.arg
    else:
      names_va = None
    d = self.bv_depth
    self.bv_depth += 1
    bvs = [mk('bv', d, i) for i in range(len(names))]
    bound = {}
    for n, v in zip(fv.params()[:len(lead)], lead):
      bound[n] = v
    for n, v in zip(names, bvs):
      bound[n] = v
    a = fv.node.args
    if names_va:
      bound[names_va] = mk('bv', d, 'va')
    for p, df in zip(a.kwonlyargs, a.kw_defaults):
      bound[p.arg] = self._default(fv, df, st) if df is not None else mk(
          'bv', d, p.arg)
    bound.update(prekw)
    if a.kwarg:
      bound[a.kwarg.arg] = mk('bv', d, 'kw')
    lst = st.copy()
    g0 = lst.guard
    saved = self.lams
    saved_ctx = (self.trys,)
    self.lams = self.lams + (fv.qual,)
    self.trys = ()
    if sterm is not None and scls is not None:
      self.cls_of[sterm] = scls
    try:
      ret, _ = self._eval_function(fv, bound, lst, scls, sterm)
      if lst.guard is not g0 and not self.fatal and ret is not UNDEF:
        ret = ite(rel_guard(lst.guard, g0), ret, FAILS)
    finally:
      self.lams = saved
      self.trys = saved_ctx[0]
      self.bv_depth -= 1
    out = mk('lam', len(names), ret, d)
    if out not in self.lam_src:
      self.lam_src[out] = t
    return out

  # -- modelled builtins ----------------------------------------------------

  def _builtin(self, n, args, kw, st, node, fr):
    if n.startswith('builtins.'):
      b = n[9:]
      if b == 'isinstance' and len(args) == 2:
        return _isinst(args[0], args[1])
      if b == 'getattr' and len(args) >= 2 and is_const(args[1]):
        v = self.getattr(args[0], args[1].args[0], st, fr, node)
        if len(args) == 3:
          return ite(mk('has', args[0], args[1].args[0]), v, args[2])
        return v
      if b == 'hasattr' and len(args) == 2 and is_const(args[1]):
        return mk('has', args[0], args[1].args[0])
      if b == 'setattr' and len(args) == 3 and is_const(args[1]):
        self._emit('setattr', args[2], st, node,
                   extra=(args[0], args[1].args[0]))
        st.heap[(args[0], args[1].args[0])] = args[2]
        return NONE
      if b == 'dict':
        cur = mk('dict')
        if args:
          x = args[0]
          if x.op == 'comp' and x.args[0] == 'list' and x.args[1].op == 'tuple':
            cur = mk_comp('dict', *x.args[1:])
          elif x.op == 'list' and all(
              y.op == 'tuple' and len(y.args) == 2 for y in x.args):
            for y in x.args:
              cur = self._dict_put(cur, y.args[0], y.args[1])
          else:
            cur = x
        for k, v in kw:
          if k == '**':
            cur = self.merge_dict(cur, v)
          else:
            cur = self._dict_put(cur, const(k), v)
        return cur
      if b in ('list', 'tuple', 'set', 'frozenset') and not kw:
        if not args:
          return mk('list' if b == 'list' else 'tuple' if b == 'tuple' else
                    'set')
        x = args[0]
        if x.op in ('list', 'tuple') and b in ('list', 'tuple') and not any(
            y.op == 'star' for y in x.args):
          return mk(b, *x.args)
        if b == 'list' and x.op == 'comp' and x.args[0] == 'list':
          return x
        if b == 'set' and x.op == 'comp' and x.args[0] == 'list':
          return mk_comp('set', *x.args[1:])
        if b == 'set' and x.op in ('list', 'tuple', 'set'):
          return mk('set', *sorted(set(x.args), key=sort_key))
      if b == 'len' and len(args) == 1:
        x = args[0]
        if x.op in ('list', 'tuple') and not any(
            isinstance(y, T) and y.op == 'star' for y in x.args):
          return const(len(x.args))
        if x.op == 'dict':
          return const(len(x.args))
        if x.op == 'const' and isinstance(x.args[0], (str, bytes)):
          return const(len(x.args[0]))
      if b == 'divmod' and len(args) == 2 and not kw:
        return mk('tuple', self.binop(ast.FloorDiv(), *args),
                  self.binop(ast.Mod(), *args))
      if b in ('any', 'all') and len(args) == 1:
        x = args[0]
        if x.op in ('list', 'tuple'):
          return (b_or if b == 'any' else b_and)(*x.args)
        if x.op == 'comp' and x.args[0] in ('list', 'set'):
          its = x.args[2]
          it = its[0] if len(its) == 1 else mk('tuple', *its)
          if b == 'any':
            return exists(it, b_and(x.args[3], truth(x.args[1])))
          return b_not(exists(it, b_and(x.args[3], b_not(truth(x.args[1])))))
      if b == 'map' and len(args) == 2 and not kw:
        e, its, g = self._elem(args[1])
        lits = self._literal_items(args[1])
        if lits is not None:
          return mk('list', *[self._call(args[0], [x], [], st, node, fr)
                              for x in lits])
        base = st.guard
        sl = self.loops
        lid = LOOPS.n
        LOOPS.n += 1
        self.loops = self.loops + tuple((lid, i) for i in its)
        v = self._call(args[0], [e], [], st, node, fr)
        self.loops = sl
        return mk_comp('list', v, its, g)
      if b == 'filter' and len(args) == 2 and not kw:
        e, its, g = self._elem(args[1])
        v = e if args[0] is NONE else self._call(args[0], [e], [], st, node, fr)
        return mk_comp('list', e, its, b_and(g, truth(v)))
      if b == 'sum' and len(args) == 1 and not kw:
        return mk_sum(args[0])
      if b == 'str' and len(args) == 1 and not kw:
        if args[0].op in ('const', 'fmt'):
          return fmt(args[0])
        return None
      if b in ('int', 'float', 'bool') and len(args) == 1 and is_const(args[0]):
        try:
          return const({'int': int, 'float': float, 'bool': bool}[b](
              args[0].args[0]))
        except Exception:  # pylint: disable=broad-except
          return None
      if b == 'slice' and 1 <= len(args) <= 3:
        if len(args) == 1:
          return mk('slice', NONE, args[0], NONE)
        return mk('slice', *(list(args) + [NONE])[:3])
      return None
    if n == 'functools.reduce' and not kw and 2 <= len(args) <= 3 and (
        len(args) == 2 or is_const(args[2], 1)):
      # the product of the elements, as math.prod
      f = self._reify(args[0], st)
      if f is ref('operator.mul') or (f.op == 'lam' and f.args[0] == 2 and
                                      f.args[1].op == 'mul'):
        if f.op != 'lam' or {x.op for x in f.args[1].args} == {'bv'} and (
            f.args[1].args[0] is not f.args[1].args[1]):
          return self.product(args[1])
    if n == 'math.prod' and len(args) == 1 and not kw:
      return self.product(args[0])
    if n == 'functools.partial' and args:
      f = args[0]
      if f.op == 'partial':
        return mk('partial', f.args[0], f.args[1] + tuple(args[1:]),
                  tuple(_merge_kw(f.args[2], kw)))
      return mk('partial', f, tuple(args[1:]), tuple(sorted(kw)))
    if n == 'typing.cast' and len(args) == 2:
      return args[1]
    if n == 'os.path.join' and not kw:
      return path(*args)
    if n == 'dataclasses.replace' and len(args) == 1:
      return self._opaque_call(attr(args[0], 'replace'), [], kw, st, node, fr)
    if n in ('copy.copy', 'copy.deepcopy') and len(args) == 1:
      return args[0]
    if n == 'jax.tree.map' and False:
      return None
    if n.startswith('operator.') and n[9:] in _OPS and len(args) == 2:
      return self.binop(_OPS[n[9:]](), args[0], args[1]) if n[
          9:] in _BINOPS else self.compare(_OPS[n[9:]](), args[0], args[1])
    return None


_BINOPS = {'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod'}
_OPS = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div,
        'floordiv': ast.FloorDiv, 'mod': ast.Mod, 'eq': ast.Eq,
        'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt,
        'ge': ast.GtE}

_EMPTY_FN = ast.parse('def _m():\n  pass').body[0]
import builtins as _b  # pylint: disable=wrong-import-position
_BUILTINS = set(dir(_b))


def path(*args):
  out = []
  for a in args:
    if a.op == 'path':
      out.extend(a.args)
    elif a.op == 'star':
      out.append(a)
    else:
      out.append(a)
  if len(out) == 1:
    return out[0]
  return mk('path', *out)


def _one_store(s, mu):
  """A choice of what to store under one key stores the choice."""
  if s.op != 'ite':
    return s
  a, b = _one_store(s.args[1], mu), _one_store(s.args[2], mu)
  if a.op == b.op == 'setitem' and a.args[0] is b.args[0] is mu and (
      a.args[1] is b.args[1]):
    return mk('setitem', mu, a.args[1], ite(s.args[0], a.args[2], b.args[2]))
  if a.op == b.op == 'concat' and len(a.args) == len(b.args) == 2 and (
      a.args[0] is b.args[0] is mu):
    x, y = a.args[1], b.args[1]
    if x.op == y.op == 'list' and len(x.args) == len(y.args) == 1 and (
        'star' not in (x.args[0].op, y.args[0].op)):
      return concat(mu, mk('list', ite(s.args[0], x.args[0], y.args[0])))
  return ite(s.args[0], a, b) if (a, b) != s.args[1:] else s


def _one_dict(v):
  """A choice of dicts with the same keys is a dict of choices."""
  if v.op != 'ite':
    return v
  a, b = _one_dict(v.args[1]), _one_dict(v.args[2])
  if a.op == b.op == 'dict':
    p, q = dict(a.args), dict(b.args)
    if set(p) == set(q) and len(p) == len(a.args) == len(b.args):
      return mk('dict', *[(k, ite(v.args[0], x, q[k])) for k, x in a.args])
  return v


def exists(it, cond):
  cond = truth(cond)
  if cond is FALSE:
    return FALSE
  if cond is TRUE and it.op != 'while':
    return truth(it)
  return mk('exists', it, cond)


def mk_comp(kind, e, its, g):
  # identity comprehension [x for x in xs] is list(xs)
  return mk('comp', kind, e, tuple(its), g)


def mk_sum(x):
  if x.op in ('list', 'tuple') and not any(a.op == 'star' for a in x.args):
    return add(*x.args) if x.args else const(0)
  return mk('call', ref('builtins.sum'), (x,), ())


def _isinst(a, b):
  if b.op == 'tuple':
    return b_or(*[_isinst(a, x) for x in b.args])
  return mk('isinst', a, b)


def _merge_kw(a, b):
  d = dict(a)
  for k, v in b:
    d[k] = v
  return sorted(d.items(), key=lambda x: x[0])


def _sort_items(items):
  return sorted(items, key=lambda kv: repr(kv[0].args))


def _as_load(t):
  t = copy.deepcopy(t)
  for n in ast.walk(t):
    if hasattr(n, 'ctx'):
      n.ctx = ast.Load()
  return t


def _src_hash(e):
  try:
    return ast.unparse(e)
  except Exception:  # pylint: disable=broad-except
    return '?'


def _keyname(key):
  if key[0] == 'f':
    return key[2]
  k = key[1]
  return k[1] if isinstance(k, tuple) else str(k)


def _has_break(body):
  for s in body:
    if isinstance(s, ast.Break):
      return True
    if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
      if isinstance(s, (ast.For, ast.While)) and _has_break(s.orelse):
        return True
      continue
    for f in ('body', 'orelse', 'finalbody'):
      if _has_break(getattr(s, f, None) or []):
        return True
    for h in getattr(s, 'handlers', []) or []:
      if _has_break(h.body):
        return True
    for c in getattr(s, 'cases', []) or []:
      if _has_break(c.body):
        return True
  return False


def _except_names(t):
  """The caught classes of a handler, whatever their modules are imported as."""
  if t is None:
    return '*'
  if isinstance(t, ast.Tuple):
    return ', '.join(sorted(_except_names(x) for x in t.elts))
  return t.attr if isinstance(t, ast.Attribute) else ast.unparse(t)


def _try_label(events):
  """Content label for a try statement: the calls its body makes."""
  names = set()
  for e in events:
    if e.kind == 'call' and e.term.op == 'call':
      f = e.term.args[0]
      if f.op == 'ref':
        if 'logging.' not in f.args[0] and not f.args[0].startswith('time.'):
          names.add(f.args[0].split('.')[-1])
      elif f.op == 'attr':
        names.add(f.args[1])
  return '|'.join(sorted(names))


def _written(d):
  """Items, in order of writing, of a display with entries added to it."""
  put = []
  while d.op == 'setitem':
    put.append(d.args[1:3])
    d = d.args[0]
  if d.op != 'dict':
    return None
  return list(d.args) + put[::-1]


def _abstract(fv):
  if fv.has_decorator('abstractmethod'):
    return True
  body = fv.node.body if not isinstance(fv.node, ast.Lambda) else []
  if not isinstance(body, list):
    return False
  real = [s for s in body if not (
      isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or
      isinstance(s, (ast.Pass, ast.Delete)) or isinstance(s, ast.Assign) and
      isinstance(s.value, ast.Constant))]
  if not (len(real) == 1 and isinstance(real[0], ast.Raise) and
          'NotImplementedError' in ast.unparse(real[0])):
    return False
  if fv.cls is None:
    return True
  p = fv.module.project
  return fv.qual in p.inventory or any(
      fv.name in c.methods for c in p.subclasses(fv.cls))


def _simple_expr(e):
  for n in ast.walk(e):
    if isinstance(n, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp,
                      ast.GeneratorExp, ast.Await)):
      return False
    if isinstance(n, ast.Call):
      f = ast.unparse(n.func)
      if f not in ('frozenset', 'set', 'tuple', 'list', 'dict', 'sorted',
                   'functools.partial', 'partial'):
        return False
    if isinstance(n, ast.Subscript):
      # type aliases are not values we care about
      return False
  return True


def _namedtuple_like(cls):
  return any('NamedTuple' in ast.unparse(b) for b in cls.node.bases)


def _flax_struct(p, cls):
  for c in p.mro(cls):
    for b in c.node.bases:
      if ast.unparse(b).endswith('struct.PyTreeNode'):
        return True
    for d in c.node.decorator_list:
      if 'struct' in ast.unparse(d):
        return True
  return False


def _is_setlike(t):
  return t.op in ('set', 'setdiff', 'setunion', 'setadd') or (
      t.op == 'comp' and t.args[0] == 'set') or (
      t.op == 'call' and t.args[0].op == 'ref' and t.args[0].args[0] in
      ('builtins.set', 'builtins.frozenset')) or (
          t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] ==
          'keys')


def _is_empty_set(t):
  return t.op == 'set' and not t.args


def _percent(a, b):
  if a.op == 'const':
    s = a.args[0]
    import re
    parts = re.split(r'(%(?:\(\w+\))?[-+0-9.]*[sdrfgx])', s)
    vals = list(b.args) if b.op == 'tuple' else [b]
    out, i = [], 0
    for p in parts:
      if p.startswith('%') and len(p) > 1 and p[-1] in 'sdrfgx' and '(' not in p:
        if i < len(vals):
          v = vals[i]
          i += 1
          out.append(v if p in ('%s', '%d') else mk('fmtspec', v, const(p)))
          continue
      out.append(const(p))
    return fmt(*out)
  return mk('mod', a, b)


def _format(s, args, kw):
  import string
  out = []
  i = 0
  try:
    for lit, field, spec, conv in string.Formatter().parse(s):
      if lit:
        out.append(const(lit))
      if field is None:
        continue
      if field == '':
        v = args[i]
        i += 1
      elif field.isdigit():
        v = args[int(field)]
      else:
        d = dict(kw)
        if field not in d:
          return None
        v = d[field]
      out.append(mk('fmtspec', v, const(spec)) if spec else v)
  except (ValueError, IndexError):
    return None
  return fmt(*out)
