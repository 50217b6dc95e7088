#!/usr/bin/env python3
"""Decides one property from /repo's current source: check.py C01 [--tier t]."""
import argparse
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import check as chk  # pylint: disable=wrong-import-position


def load_known():
  known = {}
  p = os.path.join(chk.VERIF, 'known_findings.jsonl')
  if os.path.exists(p):
    with open(p) as f:
      for line in f:
        line = line.strip()
        if not line or line.startswith('#') or line.startswith('fixed:'):
          continue
        d = json.loads(line)
        known[(d['property'], d['rule'], d['construct'])] = d['what']
  return known


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  a = ap.parse_args()
  t0 = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  c = chk.Check(a.property, tier)
  mod = importlib.import_module('rules.' + a.property.lower())
  c.decide(mod)
  for n in c.notes:
    if n.startswith('analysis stopped'):
      print(n)
  if not c.obs:
    print(f'ANALYSIS-BROKEN property={a.property}: no obligations')
    return 2
  selftest = None
  if tier == 'thorough':
    from sa import selftest as st
    selftest = st.run(a.property)
    if selftest.get('failed'):
      print(f'ANALYSIS-BROKEN property={a.property}: self-test '
            f"{selftest['failed']}")
      return 2
  return c.finish(t0, seed, load_known(), selftest)


if __name__ == '__main__':
  sys.exit(main())
