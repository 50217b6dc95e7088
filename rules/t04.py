"""T04: every host takes part in every collective operation."""
from rules.common import *
from sa.engine import Analyzer

EXT = ('jax.experimental.multihost_utils.',)
UNIFORM = ('jax.experimental.multihost_utils.broadcast_one_to_all',
           'jax.experimental.multihost_utils.process_allgather')
LOCAL = ('jax.process_index', 'jax.host_id', 'jax.local_devices', 'time.time',
         'time.monotonic', 'time.perf_counter', 'os.getpid',
         'socket.gethostname', 'random.random', 'uuid.uuid4',
         'jax.local_device_count')
# methods that give functions all hosts run together
MAKES = ('partition', 'compile', 'get_infer_fn')
SKIP = ('t5x.examples.', 't5x.scripts.')


class Whole:
  """Summaries of all functions of the repository."""

  def __init__(self, c):
    self.c = c
    self.runs = {}
    self.methods = {}
    for f in c.p.all_functions():
      if f.qual.startswith(SKIP):
        continue
      try:
        an = Analyzer(c.p)
        # a host that fails takes all others with it: what counts is where the
        # hosts that go on are
        an.fatal = True
        self.runs[f.qual] = an.run(f, self_cls=f.cls)
        c.analysed[f.qual] = len(self.runs[f.qual].events)
      except (LookupError, RecursionError, ValueError, AttributeError,
              TypeError, AssertionError) as e:
        self.lost = (f.qual, e)
        continue
      if f.cls is not None:
        self.methods.setdefault(f.name, set()).add(f.qual)
    self.tainted = set()
    self.attrs = set()
    self.collective = set()
    self._memo = {}
    self.fix()

  # which values differ between hosts

  def dep(self, t):
    """The part of t that makes it differ between hosts, if any."""
    if not isinstance(t, T):
      for x in t if isinstance(t, tuple) else ():
        y = self.dep(x)
        if y is not None:
          return y
      return None
    if t in self._memo:
      return self._memo[t]
    self._memo[t] = None
    n = call_name(t)
    r = None
    if n in UNIFORM:
      return None
    if n in LOCAL or n in self.tainted:
      r = t
    elif t.op == 'attr' and t.args[1] in self.attrs:
      r = t
    else:
      xs = list(children(t))
      if t.op == 'mu':
        xs += [y for y in LOOP_STEPS.get(t.args[:2], ()) if isinstance(y, T)]
      for x in xs:
        r = self.dep(x)
        if r is not None:
          break
    self._memo[t] = r
    return r

  def name(self, e):
    """Function of the repository that a call may run."""
    n = call_name(e.term)
    if n and n.startswith('t5x'):
      if n in self.runs:
        return {n}
      k = n + '.__init__'
      return {k} if k in self.runs else set()
    f = e.fn if e.fn is not None else e.term.args[0]
    if f.op == 'fn':
      return {f.args[0].qual}
    if f.op == 'attr':
      return self.methods.get(f.args[1], set())
    return set()

  def made(self, f):
    """f is a function that was made to be run by all hosts."""
    if f.op == 'ite':
      return self.made(f.args[1]) or self.made(f.args[2])
    if f.op == 'partial':
      return self.made(f.args[0])
    if f.op == 'call':
      g = f.args[0]
      return (g.op == 'attr' and g.args[1] in MAKES or g.op == 'ref' and
              g.args[0].rsplit('.', 1)[-1] in MAKES)
    return False

  def is_collective(self, e):
    n = call_name(e.term) or ''
    if n.startswith(EXT):
      return True
    f = e.fn if e.fn is not None else e.term.args[0]
    return self.made(f) or bool(self.name(e) & self.collective)

  def fix(self):
    calls = {q: [e for e in r.events if e.kind == 'call' and
                 e.term.op == 'call'] for q, r in self.runs.items()}
    names = {q: [(e, self.name(e)) for e in es] for q, es in calls.items()}
    while True:
      new = {q for q, es in names.items() if q not in self.collective and any(
          n & self.collective or (call_name(e.term) or '').startswith(EXT) or
          self.made(e.fn if e.fn is not None else e.term.args[0])
          for e, n in es)}
      if not new:
        break
      self.collective |= new
    self.calls = calls
    while True:
      self._memo = {}
      n = len(self.tainted), len(self.attrs)
      for q, r in self.runs.items():
        if q not in self.tainted and self.dep(r.ret) is not None:
          self.tainted.add(q)
        for e in r.events:
          if e.kind == 'setattr' and e.extra[1] not in self.attrs and (
              self.dep(e.term) is not None or self.dep(e.guard) is not None):
            self.attrs.add(e.extra[1])
      if n == (len(self.tainted), len(self.attrs)):
        break


def unordered(t):
  """The order of t differs between hosts."""
  return t.op in ('set', 'setunion', 'setdiff', 'setadd') or t.op == 'comp' and \
      t.args[0] == 'set' or call_name(t) in ('builtins.set', 'builtins.frozenset')


def missing(w, e):
  """Why some hosts do not get to e, if so."""
  for _, it in e.loops:
    d = w.dep(it)
    if d is None and unordered(it):
      d = it
    if d is not None:
      return d
  return w.dep(e.guard)


def check(c):
  c.rule('T04.all', 'no collective operation depends on something that differs '
         'between hosts')
  w = Whole(c)
  seen = {}
  for q, es in w.calls.items():
    for e in es:
      if w.is_collective(e):
        k = (call_name(e.term) or show(e.term.args[0], 2), where(e))
        d = missing(w, e)
        if d is not None or k not in seen:
          seen[k] = d
  c.need(len(seen) > 10, 'the collective operations')
  for (n, at), d in sorted(seen.items()):
    c.ob('T04.all', f'{at.split(" in ")[-1]}: {n.rsplit(".", 1)[-1]}',
         d is None, at, 'not all hosts do this: it depends on '
         f'{show(d, 3) if d is not None else ""}')
