"""Creates and validates a seeded bug: python3 tools/mkbug.py SPEC.py [...]

SPEC defines PROP, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (source of
demo.py) and optionally USES (files of tools/ to put beside the demo).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **k):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def undo():
  sh('git -C /repo checkout -- .')


def main(spec, check=True):
  s = runpy.run_path(spec)
  bid = os.path.splitext(os.path.basename(spec))[0]
  d = os.path.join(V, 'seeded', bid)
  os.makedirs(d, exist_ok=True)
  with open(os.path.join(d, 'demo.py'), 'w') as f:
    f.write(s['DEMO'].lstrip('\n'))
  for u in s.get('USES', ()):
    shutil.copy(os.path.join(V, 'tools', u), os.path.join(d, u))
  with open(os.path.join(d, 'demo.sh'), 'w') as f:
    f.write('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\n'
            '[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh\n'
            'exec timeout 280 /opt/venv/bin/python "$d/demo.py"\n')
  os.chmod(os.path.join(d, 'demo.sh'), 0o755)
  with open(os.path.join(d, 'meta.json'), 'w') as f:
    json.dump({'property': s['PROP'], 'needs': ' '.join(s['NEEDS'].split()),
               'what_it_breaks': ' '.join(s['BREAKS'].split())}, f, indent=1)
    f.write('\n')
  assert not sh('git -C /repo status --porcelain').stdout.strip()
  try:
    r = sh(f'bash {d}/demo.sh', cwd=REPO)
    clean = r.returncode
    if clean:
      print(bid, 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:], r.stderr[-2500:])
    for fn, old, new in s['EDITS']:
      p = os.path.join(REPO, fn)
      t = open(p).read()
      assert t.count(old) == 1, (bid, fn, t.count(old), old)
      open(p, 'w').write(t.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    with open(os.path.join(d, 'patch.diff'), 'w') as f:
      f.write(diff)
    r = sh(f'bash {d}/demo.sh', cwd=REPO)
    bad = r.returncode
    msg = (r.stdout + r.stderr).strip().splitlines()[-1:] or ['']
    k = sh(f'python3 check.py {s["PROP"]}', cwd=V)
    v = [l for l in k.stdout.splitlines() if 'VIOLATION' in l or 'Broken' in l
         or 'stopped' in l]
    tests = ''
    if check:
      sh('bash /opt/vp/test.sh /tmp/mkbug.json', cwd=REPO)
      base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
      tests = '/tmp/mkbug.json'
      try:
        o = json.load(open(tests))
        fails = [x for x in base if x not in set(o.get('passed', []))]
        tests = f'stable failing: {len(fails)} {fails[:3]}'
      except Exception as e:  # pylint: disable=broad-except
        tests = repr(e)
    print(f'{bid}: clean={clean} patched={bad} ({msg[0][:150]}) check rc='
          f'{k.returncode} {v[:2]} {tests}')
  finally:
    undo()


if __name__ == '__main__':
  a = [x for x in sys.argv[1:] if not x.startswith('-')]
  for x in a:
    main(x, '-n' not in sys.argv)
