"""Shows that a rule can fire, and that it stays quiet on neutral rewrites.

selftest/<property>.txt holds small source edits.  `bad` edits break the
property and must be reported; `ok` edits keep the behaviour and must not be.
Edits are applied to the text in memory; nothing is written or executed.  An
edit whose anchor text is no longer in the tree is skipped and counted.

  ### bad|ok <name>
  --- t5x/file.py
  <<<<
  old
  ====
  new
  >>>>
"""
import importlib
import os
import sys

from sa import check as chk
from sa.project import Project, REPO

DIR = os.path.join(chk.VERIF, 'selftest')


def load(path):
  cases, cur, fn, old, new, mode = [], None, None, [], [], None
  with open(path) as f:
    for line in f:
      line = line.rstrip('\n')
      if mode is None:
        if line.startswith('### '):
          kind, name = line[4:].split(' ', 1)
          cur = {'kind': kind, 'name': name, 'edits': []}
          cases.append(cur)
        elif line.startswith('--- '):
          fn = line[4:].strip()
        elif line == '<<<<':
          mode, old, new = 'old', [], []
      elif mode == 'old':
        if line == '====':
          mode = 'new'
        else:
          old.append(line)
      elif line == '>>>>':
        cur['edits'].append((fn, '\n'.join(old), '\n'.join(new)))
        mode = None
      else:
        new.append(line)
  return cases


def overlay(case, root=REPO):
  src = {}
  for fn, old, new in case['edits']:
    if fn not in src:
      with open(os.path.join(root, fn), encoding='utf-8') as f:
        src[fn] = f.read()
    if old == '' and new:
      src[fn] += new + '\n'
      continue
    if src[fn].count(old) != 1:
      return None
    src[fn] = src[fn].replace(old, new)
  return src


def verdict(prop, project):
  c = chk.Check(prop, project=project)
  mod = importlib.import_module('rules.' + prop.lower())
  c.decide(mod)
  return [o for o in c.obs if not o[2]], None, len(c.obs)


def run(prop, verbose=False):
  path = os.path.join(DIR, prop + '.txt')
  res = {'bad': 0, 'bad_detected': 0, 'ok': 0, 'ok_quiet': 0, 'skipped': 0,
         'failed': []}
  if not os.path.exists(path):
    return res
  base = {(o[0], o[1]) for o in verdict(prop, Project())[0]}
  for case in load(path):
    ov = overlay(case)
    if ov is None:
      res['skipped'] += 1
      if verbose:
        print(f"  skip {case['name']}")
      continue
    try:
      for k, v in ov.items():
        compile(v, k, 'exec')
      fails, broken, _ = verdict(prop, Project(overlay=ov))
    except Exception as e:  # pylint: disable=broad-except
      fails, broken = [], f'crash {type(e).__name__}: {e}'
    new = [o for o in fails if (o[0], o[1]) not in base]
    if case['kind'] == 'bad':
      res['bad'] += 1
      good = bool(new)
      res['bad_detected'] += good
    else:
      res['ok'] += 1
      good = not new and not broken
      res['ok_quiet'] += good
    if not good:
      res['failed'].append(f"{case['kind']} {case['name']}")
    if verbose:
      print(f"  {'ok  ' if good else 'FAIL'} {case['kind']:3} {case['name']}: " +
            (f'{new[0][0]} | {new[0][1]}' if new else broken or 'quiet') +
            (f' (+{len(new) - 1})' if len(new) > 1 else ''))
  return res


def main():
  sys.path.insert(0, chk.VERIF)
  props = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(DIR))
  bad = 0
  for p in props:
    print(p)
    bad += len(run(p, True)['failed'])
  sys.exit(bool(bad))


if __name__ == '__main__':
  main()
