"""C02: all hosts take part in a save in lock-step and only host 0 publishes."""
from rules.common import *
from rules.c01 import SAVE, writes_of, publishes_of

COLLECTIVES = {SYNC, BCAST, 'jax.experimental.multihost_utils.process_allgather',
               'jax.experimental.multihost_utils.assert_equal'}


def check(c):
  c.rule('C02.barrier-uniform', 'every barrier and broadcast in save is '
         'executed by all hosts, under a name all hosts agree on')
  c.rule('C02.mkdir-barrier', 'no host writes content before a barrier that '
         'follows creation of the directory')
  c.rule('C02.write-barrier', 'a barrier separates every content write from '
         'the publish step')
  c.rule('C02.end-barrier', 'no host returns before the publish step is over')
  c.rule('C02.host0', 'directory creation, index write, publish and pruning '
         'happen on host 0 only')
  c.rule('C02.all-hosts', 'arrays and dataset state are written by every host')
  c.rule('C02.shared-name', 'the private directory name is the same on all hosts')
  for cls in ('t5x.checkpoints.Checkpointer',
              't5x.checkpoints.SaveBestCheckpointer'):
    r = c.run(SAVE, cls=cls, inline=('t5x.checkpoint_utils.remove_checkpoint_dir',
                                     't5x.checkpoint_utils.remove_dataset_checkpoint'))
    one(c, r, suffix(cls))


def one(c, r, tag):
  pubs = publishes_of(r)
  c.need(pubs, 'no publish step in save')
  ws = writes_of(r)
  bars = named(r, SYNC)
  c.need(bars, 'no barrier in save')
  for e in [x for x in r.events if x.kind == 'call' and x.name() in COLLECTIVES]:
    nm = args_of(e)[0]
    label = label_of(nm) if e.name() == SYNC else 'broadcast'
    # data-dependent only on the shared file system and the arguments
    c.ob('C02.barrier-uniform', f'{tag} {suffix(e.name())} {label}',
         not host_dependent(e.guard) and not e.loops and not e.lams, where(e),
         'a collective is only reached by some hosts')
    if e.name() == SYNC:
      c.ob('C02.barrier-uniform', f'{tag} name {label}',
           not host_dependent(nm), where(e), 'barrier name differs per host')
  # the shared name
  tmp = pubs[0][1]
  c.ob('C02.shared-name', f'{tag} private directory', not host_dependent(tmp) and
       not host_dependent(pubs[0][2]), where(pubs[0][0]),
       'directory names must not depend on host-local values')
  mk_ = [e for e, _, k in ws if k == 'mkdir']
  content = [(e, k) for e, _, k in ws if k in ('array', 'dataset')]
  c.need(mk_ and content, 'no mkdir or content write in save')
  for e in mk_:
    c.ob('C02.host0', f'{tag} {suffix(e.name() or "mkdir")}', host0(e.guard),
         where(e), 'must run on host 0 only')
  for e, k in content:
    ok = any(m.idx < b.idx < e.idx and implies(e.guard, b.guard)
             for b in bars for m in mk_)
    c.ob('C02.mkdir-barrier', f'{tag} {k}', ok, where(e),
         'a write may start before the directory exists')
    c.ob('C02.all-hosts', f'{tag} {k}', not host_dependent(e.guard), where(e),
         'content of this host would not be written')
    for p, _, _ in pubs:
      ok = any(e.idx < b.idx < p.idx and implies(p.guard, b.guard)
               for b in bars)
      c.ob('C02.write-barrier', f'{tag} {k} before {callee_tail(p)}', ok,
           where(p), 'host 0 may publish while other hosts still write')
  for e, _, k in ws:
    if k == 'file':
      c.ob('C02.host0', f'{tag} index write', host0(e.guard), where(e),
           'must run on host 0 only')
  for p, _, _ in pubs:
    c.ob('C02.host0', f'{tag} publish {callee_tail(p)}', host0(p.guard),
         where(p), 'must run on host 0 only')
    after = [b for b in bars if b.idx > p.idx]
    lim = b_or(*[b.guard for b in after]) if after else FALSE
    # every completing path with a publish passes the final barrier
    c.ob('C02.end-barrier', f'{tag} {callee_tail(p)}',
         implies(b_and(strip0(p.guard), r.state.guard), lim), where(p),
         'other hosts may return before the checkpoint is visible')
  rem = named(r, *REMOVES)
  c.need(rem, 'no pruning in save')
  last = max(b.idx for b in bars)
  for e in rem:
    c.ob('C02.host0', f'{tag} prune {suffix(e.name())}', host0(e.guard),
         where(e), 'pruning must run on host 0 only')
    c.ob('C02.end-barrier', f'{tag} prune {suffix(e.name())}', e.idx < last,
         where(e), 'pruning must be over before other hosts return')


def strip0(g):
  lits = g.args if g.op == 'and' else (g,)
  return b_and(*[l for l in lits if l is not HOST0])


def label_of(t):
  if t.op == 'fmt' and t.args and t.args[0].op == 'const':
    return str(t.args[0].args[0]).strip(':')
  if t.op == 'const':
    return str(t.args[0])
  return 'sync'
