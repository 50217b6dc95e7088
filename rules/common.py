"""Queries shared by the rules."""
from sa.check import Broken
from sa.engine import FAILS
from sa.pat import find, leaves, match
from sa.terms import *  # pylint: disable=wildcard-import
from sa.terms import mk_eq, mk_is, mk_lt, digest

PROC = mk('call', ref('jax.process_index'), (), ())
HOST0 = mk_eq(PROC, const(0))
BCAST = 'jax.experimental.multihost_utils.broadcast_one_to_all'
SYNC = 'jax.experimental.multihost_utils.sync_global_devices'

RENAMES = {'tensorflow.io.gfile.rename', 'os.rename', 'os.replace',
           'shutil.move'}
REMOVES = {'tensorflow.io.gfile.rmtree', 'tensorflow.io.gfile.remove',
           'shutil.rmtree', 'os.remove', 'os.unlink', 'os.rmdir'}
COPIES = {'tensorflow.io.gfile.copy', 'shutil.copy', 'shutil.copytree',
          'shutil.copyfile'}
NOISE = ('absl.logging.', 'builtins.', 'time.', 'typing.', 'warnings.',
         'jax.monitoring.')


def calls(r, pred):
  return [e for e in r.events if e.kind == 'call' and pred(e)]


def named(r, *names):
  s = set(names)
  return [e for e in r.events if e.kind == 'call' and e.name() in s]


def meth(r, *names):
  s = set(names)
  return [e for e in r.events if e.kind == 'call' and e.meth() in s]


def args_of(e):
  return tuple(e.args) + tuple(v for _, v in e.kw)


def getarg(e, i, *names):
  """Argument by keyword or position."""
  for n in names:
    for k, v in e.kw:
      if k == n:
        return v
  if i is not None and i < len(e.args):
    return e.args[i]
  return None


def karg(t, name, i=None):
  """Argument of a call term."""
  for k, v in t.args[2]:
    if k == name:
      return v
  if i is not None and i < len(t.args[1]):
    return t.args[1][i]
  return None


def call_name(t):
  if t.op != 'call':
    return None
  f = t.args[0]
  if f.op == 'ref':
    return f.args[0]
  if f.op == 'attr':
    return '.' + f.args[1]
  return None


def host0(g):
  return implies(g, HOST0)


def mentions(t, u):
  return u in subterms(t)


def mentions_call(t, name):
  return any(call_name(x) == name for x in subterms(t))


def mentions_sym(t, name):
  return sym(name) in subterms(t)


def mentions_attr(t, name):
  return any(x.op == 'attr' and x.args[1] == name for x in subterms(t))


def strip_bcast(t):
  """Replaces every host-uniform broadcast by a constant."""
  m = {x: const('<broadcast>') for x in subterms(t) if call_name(x) == BCAST}
  return substitute(t, m) if m else t


def host_dependent(t):
  """Does the value differ between hosts (process index, wall clock, local io)?"""
  t = strip_bcast(t)
  for x in subterms(t):
    n = call_name(x)
    if n in ('jax.process_index', 'time.time', 'jax.local_devices',
             'os.getpid', 'socket.gethostname', 'jax.host_id',
             'time.monotonic', 'time.perf_counter', 'random.random'):
      return True
  return False


def must_precede(a, b):
  """Every path reaching b has passed a (a's guard is implied, a earlier)."""
  return (a.idx < b.idx and implies(b.guard, a.guard) and
          len(a.loops) <= len(b.loops) and
          a.loops == b.loops[:len(a.loops)])


def some_precedes(as_, b, need_loops=True):
  """On every path to b one of the events of as_ has happened."""
  g = FALSE
  for a in as_:
    if a.idx < b.idx and (not need_loops or
                          a.loops == b.loops[:len(a.loops)]):
      g = b_or(g, a.guard)
  return implies(b.guard, g)


def all_paths_reach(events, g):
  """The condition g implies that one of the events is executed."""
  o = FALSE
  for e in events:
    if not e.loops:
      o = b_or(o, e.guard)
  return implies(g, o)


def where(e):
  return f'{e.where} in {e.func}'


def depends(t, u):
  """u is one of the sources of t (t computed from u)."""
  return u in subterms(t)


def strip_noise_events(evs):
  return [e for e in evs if e.kind == 'call' and not (
      e.name() or '').startswith(NOISE)]


def exits(r):
  """Guards under which the analysed (root) function returns normally."""
  root = r.frame.fv.qual
  return [e for e in r.events if e.kind == 'return' and e.stack and
          len(e.stack) == 1 and not e.lams]


def callee_tail(e):
  n = e.name()
  return n.rsplit('.', 1)[-1] if n else e.meth()


def prefix_events(r, e):
  return [x for x in r.events if x.idx < e.idx]


def first(xs, what):
  if not xs:
    raise Broken(what)
  return xs[0]


def is_builtin(t, name):
  return call_name(t) == 'builtins.' + name


def prefix_slice(t):
  """t ranges over X[:n]: returns (X, n) or None."""
  if t.op == 'elem':
    s = t.args[0]
    if s.op == 'sub' and s.args[1].op == 'slice':
      lo, hi, st = s.args[1].args
      if (is_const(lo, None) or is_const(lo, 0)) and (
          is_const(st, None) or is_const(st, 1)):
        return s.args[0], hi
    if call_name(s) == 'itertools.islice' and len(s.args[1]) == 2:
      return s.args[1][0], s.args[1][1]
  if t.op == 'sub' and t.args[1].op == 'elem' and is_builtin(
      t.args[1].args[0], 'range') and len(t.args[1].args[0].args[1]) == 1:
    return t.args[0], t.args[1].args[0].args[1][0]
  return None


def strip_list(t):
  while call_name(t) in ('builtins.list', 'builtins.tuple') and len(
      t.args[1]) == 1:
    t = t.args[1][0]
  return t


def suffix(q):
  return q.rsplit('.', 1)[-1]


def reach(t, d, memo=None):
  """Condition under which the value d is (part of) the value t.

  Tests on d itself and bodies of function values do not count.
  """
  if memo is None:
    memo = {}
  if t is d:
    return TRUE
  if not isinstance(t, T) or t.op in ('const', 'sym', 'ref', 'lam', 'is', 'eq',
                                      'isinst', 'in', 'lt', 'not', 'and', 'or'):
    return FALSE
  if t in memo:
    return memo[t]
  memo[t] = FALSE
  if t.op == 'ite':
    c, a, b = t.args
    r = b_or(b_and(c, reach(a, d, memo)), b_and(b_not(c), reach(b, d, memo)))
  else:
    r = FALSE
    for x in flat_children(t):
      r = b_or(r, reach(x, d, memo))
  memo[t] = r
  return r


def flat_children(t):
  def walk(a):
    if isinstance(a, T):
      yield a
    elif isinstance(a, tuple):
      for x in a:
        yield from walk(x)
  for a in t.args:
    yield from walk(a)


def hosts(r, e):
  """Calls a function value containing event e is handed to."""
  out = []
  depth = len(e.lams)
  evs = r.events
  i = e.idx
  while depth > 0:
    # next event outside the innermost function value
    i += 1
    while i < len(evs) and len(evs[i].lams) >= depth:
      i += 1
    if i >= len(evs):
      break
    h = evs[i]
    depth = len(h.lams)
    out.append(h)
  return out


def is_target_key(t):
  """t denotes state['target'] (or .target)."""
  return (t.op == 'sub' and is_const(t.args[1], 'target') or
          t.op == 'attr' and t.args[1] == 'target')


def target_atoms(*ts):
  out = set()
  for t in ts:
    for x in subterms(t):
      if x.op == 'eq' and any(is_const(a, 'target') for a in x.args):
        out.add(x)
  return out


def raises(r, *kinds):
  """Raise events of the analysed function itself (not of function values)."""
  out = []
  for e in r.events:
    if e.kind == 'raise' and not e.lams:
      n = call_name(e.term) or ''
      if not kinds or n.rsplit('.', 1)[-1] in kinds:
        out.append(e)
  return out


def rejected(r, cond, *kinds):
  """Every path on which cond holds ends in an exception."""
  o = FALSE
  for e in raises(r, *kinds):
    if not e.loops:
      o = b_or(o, e.guard)
  return implies(cond, o)


def under(t, *conds):
  """The value of t on paths where conds hold (every inner choice decided)."""
  g = b_and(*[truth(c) for c in conds])
  return _under(t, g, {})


def _under(t, g, memo):
  if not isinstance(t, T):
    return tuple(_under(x, g, memo) for x in t) if isinstance(t, tuple) else t
  r = memo.get(t)
  if r is not None:
    return r
  if t.op == 'ite':
    c = t.args[0]
    if implies(g, c):
      r = _under(t.args[1], g, memo)
    elif implies(g, b_not(c)):
      r = _under(t.args[2], g, memo)
    else:
      r = ite(_under(c, g, memo), _under(t.args[1], g, memo),
              _under(t.args[2], g, memo))
  elif t.op in ('const', 'sym', 'ref', 'bv', 'mv'):
    r = t
  else:
    r = rebuild(t.op, tuple(_under(x, g, memo) for x in t.args))
    b = method_call(r, 'get')
    if b is not None and r.args[1] and not r.args[2]:
      has = mk_in(r.args[1][0], b)
      if implies(g, has):
        r = index(b, r.args[1][0])
      elif implies(g, b_not(has)):
        r = (r.args[1] + (NONE,))[1]
  memo[t] = r
  return r


def find_calls(t, name):
  return [x for x in subterms(t) if call_name(x) == name]


def lam_of(t):
  return [x for x in subterms(t) if x.op == 'lam']


def getter(t, key):
  """t reads key from something: X[key], X.get(key, ...): returns X or None."""
  if t.op == 'sub' and is_const(t.args[1], key):
    return t.args[0]
  if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[
      1] == 'get' and t.args[1] and is_const(t.args[1][0], key):
    return t.args[0].args[0]
  return None


_FREEZE = {'flax.core.freeze', 'flax.core.unfreeze',
           'flax.core.frozen_dict.freeze', 'flax.core.frozen_dict.unfreeze',
           'flax.core.frozen_dict.FrozenDict', 'flax.core.FrozenDict'}


def strip_calls(t, names, memo=None):
  """Rewrites f(x) to x for every one-argument call of a named function."""
  if memo is None:
    memo = {}
  if not isinstance(t, T):
    return tuple(strip_calls(x, names, memo)
                 for x in t) if isinstance(t, tuple) else t
  r = memo.get(t)
  if r is not None:
    return r
  if t.op in ('const', 'sym', 'ref', 'bv', 'mv'):
    r = t
  elif t.op == 'call' and call_name(t) in names and len(t.args[1]) == 1:
    r = strip_calls(t.args[1][0], names, memo)
  else:
    r = rebuild(t.op, tuple(strip_calls(x, names, memo) for x in t.args))
  memo[t] = r
  return r


def plain(t):
  """t without freeze/unfreeze wrappers (they do not change the mapping)."""
  return strip_calls(t, _FREEZE)


def kwmap(t):
  return dict(t.args[2])


def args_of_call(t):
  return tuple(t.args[1]) + tuple(v for _, v in t.args[2])


def method_call(t, name):
  """t is X.name(...): returns X or None."""
  if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == name:
    return t.args[0].args[0]
  return None


def value_leaves(t, cond=TRUE):
  """(condition, value) pairs of t that can actually happen."""
  return [(g, v) for g, v in leaves(t, cond) if satisfiable(g) and
          v.op != 'undef' and v is not FAILS]


def got_leaves(t, cond=TRUE):
  """value_leaves, d.get(k, v) being d[k] or v."""
  for g, v in value_leaves(t, cond):
    b = method_call(v, 'get')
    if b is None or not v.args[1] or v.args[2]:
      yield g, v
      continue
    has = mk_in(v.args[1][0], b)
    yield b_and(g, has), index(b, v.args[1][0])
    for h, w in got_leaves((v.args[1] + (NONE,))[1], b_and(g, b_not(has))):
      yield h, w


def has_attr(t, name):
  return mk('has', t, name)


def completes(r):
  """Condition under which the analysed function returns normally."""
  return r.state.guard if not exits(r) else b_or(*[e.guard for e in exits(r)])


def never_completes(r, cond):
  """No path on which cond holds returns normally."""
  return not satisfiable(b_and(completes(r), cond))


def beta(lam, *args):
  """The body of a function value with its parameters replaced."""
  body, lvl = lam.args[1], lam.args[2]
  m = {mk('bv', lvl, i): a for i, a in enumerate(args)}
  return _beta(body, m, lvl, {})


def _beta(t, m, lvl, memo):
  if not isinstance(t, T):
    return tuple(_beta(x, m, lvl, memo) for x in t) if isinstance(
        t, tuple) else t
  if t in memo:
    return memo[t]
  if t in m:
    r = m[t]
  elif t.op in ('const', 'sym', 'ref', 'bv', 'mv') or t.op == 'lam' and t.args[
      2] == lvl:
    r = t           # an inner function value binds the same names again
  else:
    r = rebuild(t.op, tuple(_beta(x, m, lvl, memo) for x in t.args))
  memo[t] = r
  return r


def conj(g):
  """The conjuncts of a condition."""
  return tuple(g.args) if g.op == 'and' else (g,)


def reference(c, rule, construct, q, src, msg, module=None, opaque=(), cls=None,
              args=None, ret=None, with_init=False, heap=None, method=None):
  """q computes what the reference definition src (same parameters) computes.

  Of several sources (ways of writing the same), one has to agree.
  """
  import ast
  if not isinstance(src, str):
    from sa import same as sm
    for one in src:
      r, s = reference_runs(c, q, one, module=module, opaque=opaque, args=args,
                            heap=heap, cls=cls, method=method)
      ok = sm.same(ret(r), ret(s)) if ret else sm.same_result(r, s)
      if ok:
        break
    c.ob(rule, construct, ok, q, msg)
    return r, s
  fn = ast.parse(src).body[-1]
  name = fn.name
  names = [a.arg for a in fn.args.posonlyargs + fn.args.args +
           fn.args.kwonlyargs]
  fv = c.func(q)
  have = list(fv.params()) + list(fv.kwonly())
  if len(have) != len(names):
    have = [p for p in have if p in names]
  given = dict(args or {})
  a1, a2 = {}, {}
  for i, n in enumerate(names):
    t = given.get(n, sym(n))
    a2[n] = t
    if i < len(have):
      a1[n if n in have else have[i]] = t
  r = c.run(q, cls=cls, opaque=opaque, args=a1, with_init=with_init, heap=heap)
  s = c.run_src(src, name, module=module or fv.module.name, args=a2,
                opaque=opaque, cls=method)
  from sa import same as sm
  if ret is not None:
    ok = sm.same(ret(r), ret(s))
  else:
    ok = sm.same_result(r, s)
  c.ob(rule, construct, ok, q, msg)
  return r, s


def effects(r, pick, given=None):
  """[(content, guard)]: what pick(event) (a tuple of terms) is done, and when.

  given(atom): conditions that are taken to hold.
  """
  out = {}
  for e in r.events:
    t = pick(e)
    if t is None:
      continue
    k, g = tuple(t), e.guard
    if given is not None:
      g = put(g, {a: TRUE for a in atoms(g) if given(a)})
    out[k] = b_or(out[k], g) if k in out else g
  return list(out.items())


def written(e):
  """Items stored into containers."""
  return (e.extra[1], e.term) if e.kind == 'setitem' else None


def stored(e):
  """Items stored into containers, and attributes of objects."""
  if e.kind == 'setattr':
    return (e.extra[0], const(e.extra[1]), e.term)
  return written(e)


def same_effects(r, s, pick=stored, given=None):
  """Both do the same things under the same conditions, in whatever order."""
  from sa import same as sm
  a, b = effects(r, pick, given), effects(s, pick, given)
  if len(a) != len(b):
    return False
  left = list(b)
  for k, g in a:
    x = same_effect(k, g, left)
    if x is None:
      return False
    left.remove(x)
  return True


def same_effect(k, g, others):
  """The one of others that does k under the condition g."""
  from sa import same as sm
  w, t = ite(g, const(1), const(0)), mk('tuple', *k)
  for x in others:
    if len(x[0]) == len(k) and (t is mk('tuple', *x[0]) or sm.same(
        t, mk('tuple', *x[0]), g)) and sm.same(
            w, ite(x[1], const(1), const(0))):
      return x
  return None


def reference_runs(c, q, src, module=None, opaque=(), args=None, heap=None,
                   cls=None, method=None):
  """(run of q, run of the reference definition)."""
  import ast
  fn = ast.parse(src).body[-1]
  names = [a.arg for a in fn.args.posonlyargs + fn.args.args +
           fn.args.kwonlyargs]
  fv = c.func(q)
  have = list(fv.params()) + list(fv.kwonly())
  a1, a2 = {}, {}
  for i, n in enumerate(names):
    t = (args or {}).get(n, sym(n))
    a2[n] = t
    if i < len(have):
      a1[n if n in have else have[i]] = t
  return (c.run(q, cls=cls, opaque=opaque, args=a1, heap=heap),
          c.run_src(src, fn.name, module=module or fv.module.name,
                    args=a2, opaque=opaque, cls=method))


def put(t, m):
  """t with every term of m replaced (outermost first)."""
  memo = {}

  def rec(x):
    if not isinstance(x, T):
      return tuple(rec(y) for y in x) if isinstance(x, tuple) else x
    if x in m:
      return m[x]
    if x in memo:
      return memo[x]
    if x.op in ('const', 'sym', 'ref', 'bv', 'mv'):
      r = x
    else:
      r = rebuild(x.op, tuple(rec(y) for y in x.args))
    memo[x] = r
    return r
  return rec(t)


def part(t, name, default=None):
  """Field name of a value built by a constructor or by replace()."""
  if t.op == 'ite':
    return ite(t.args[0], part(t.args[1], name), part(t.args[2], name))
  if t.op == 'call':
    k = kwmap(t)
    if t.args[0].op == 'ref' and name in k:
      return k[name]
    if t.args[0].op == 'attr' and t.args[0].args[1] in ('replace', '_replace'):
      return k[name] if name in k else part(t.args[0].args[0], name)
  return attr(t, name)


def loops_of(t, name='jax.lax.while_loop'):
  """Calls of a loop primitive, outermost first."""
  xs = [x for x in subterms(t) if call_name(x) == name]
  return [x for x in xs if not any(y is not x and x in subterms(y)
                                   for y in xs)]


def same_loop(c, rule, what, q, r, s, msg, fields=None,
              name='jax.lax.while_loop'):
  """Both values come from one loop with the same start, step, end and use."""
  from sa import same as sm
  a, b = loops_of(r.ret, name), loops_of(s.ret, name)
  c.need(len(b) == 1, f'the reference loop of {what}')
  if len(a) != 1:
    c.need(False, f'the loop of {what}')
  a, b = a[0], b[0]
  ka, kb = kwmap(a), kwmap(b)
  c.need(set(ka) == set(kb), f'the loop of {what}')
  g = b_not(sm.raise_guard(s))
  lv = {}
  for k in kb:
    x, y = ka[k], kb[k]
    if x.op == y.op == 'lam':
      if x.args[0] != y.args[0] or x.args[2] != y.args[2]:
        c.ob(rule, f'{what}: {k}', False, q, msg)
        continue
      x, y = x.args[1], y.args[1]
    names = fields
    if names and (y.op == 'call' and set(names) <= set(kwmap(y))):
      for n in names:
        u, v = part(x, n), part(y, n)
        c.ob(rule, f'{what}: {n} {"at the start" if k.startswith("init") else "after a step"}',
             sm.same(u, v, g), q, msg)
    else:
      c.ob(rule, f'{what}: {k}', sm.same(x, y, g), q, msg)
  L = sym('?loop')
  c.ob(rule, f'{what}: result', sm.same(put(r.ret, {a: L}), put(
      s.ret, {b: L}), g) and sm.same(
          ite(sm.raise_guard(r), const(1), const(0)),
          ite(sm.raise_guard(s), const(1), const(0))), q, msg)


def defaults(c, rule, q, **want):
  """Default values of parameters of q."""
  import ast
  a = c.func(q).node.args
  pos = [x.arg for x in a.posonlyargs + a.args]
  d = dict(zip(reversed(pos), reversed(a.defaults)))
  d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults)
            if v is not None})
  for k, v in want.items():
    try:
      got = ast.literal_eval(d[k]) if k in d else 'none given'
    except ValueError:
      got = ast.unparse(d[k])
    c.ob(rule, f'{k} by default', got == v and type(got) in (type(v), int,
                                                              float), q,
         'another value is assumed')


def field_defaults(c, rule, cls, want):
  """Fields of a dataclass default to the values of the expressions in want."""
  import ast
  from sa import same as sm
  k = c.cls(cls)
  have = {x.target.id: x.value for x in k.node.body if isinstance(
      x, ast.AnnAssign) and x.value is not None}
  have.update({x.targets[0].id: x.value for x in k.node.body if isinstance(
      x, ast.Assign) and isinstance(x.targets[0], ast.Name)})

  globs = {x.targets[0].id: x.value for x in k.module.tree.body if isinstance(
      x, ast.Assign) and isinstance(x.targets[0], ast.Name)}
  have = {n: globs.get(v.id, v) if isinstance(v, ast.Name) else v
          for n, v in have.items()}

  def value(e):
    return c.run_src(f'def f():\n  return {e}', 'f', module=k.module.name).ret
  for n, e in want.items():
    if e is None:
      ok = n not in have
    else:
      ok = n in have and sm.same(value(ast.unparse(have[n])), value(e))
    c.ob(rule, f'{cls} {n} by default', ok, cls, 'another value is assumed')


def fields_same(c, rule, q, src, msg, args=None, opaque=(), cls=None,
                names=None):
  """__init__ sets up every attribute the rest of the class reads as src does.

  names: a dict that gets {attribute of src: attribute of the class}.
  """
  from sa import same as sm
  r, s = reference_runs(c, q, src, args=args, opaque=opaque, cls=cls)
  me, you = r.frame.fv.params()[0], s.frame.fv.params()[0]
  have = {k[1]: r.an._reify(v, r.state) for k, v in r.state.heap.items()
          if k[0] is sym(me)}
  want = {k[1]: s.an._reify(v, s.state) for k, v in s.state.heap.items()
          if k[0] is sym(you)}
  left = {k: v for k, v in have.items() if k not in want}
  g = b_not(sm.raise_guard(s))
  for k, v in want.items():
    j = k
    if k in have:
      ok = sm.same(have[k], v, g)
    else:
      ok = False
      for j in list(left):
        if sm.same(left[j], v, g):
          ok = True
          del left[j]
          break
    if ok and names is not None:
      names[k] = j
    c.ob(rule, f'{suffix(q)}: {k}', ok, q, msg)
  c.ob(rule, f'{suffix(q)}: rejects', sm.same(
      ite(sm.raise_guard(r), const(1), const(0)),
      ite(sm.raise_guard(s), const(1), const(0))), q, msg)
  return r, s
