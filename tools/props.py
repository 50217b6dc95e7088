"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = {}
NOTE = {}
DESIGN = {}


# the vocabulary of quantifiers (PROPERTIES.schema.json)
OVER = {'shapes': 'inputs', 'masks': 'inputs', 'train-states': 'inputs',
        'parameter-trees': 'inputs', 'steps': 'histories', 'paths': 'programs',
        'hosts': 'configurations', 'devices': 'configurations',
        'interleavings': 'schedules', 'crash-points': 'crash_points',
        'crash': 'crash_points', 'points': 'crash_points'}


def quantified(over):
  return list(dict.fromkeys(OVER.get(o, o) for o in over.split()))


def three(text):
  """The statement in at most three sentences."""
  import re
  text = ' '.join(text.split())
  s = re.split(r'(?<=[a-z0-9)\]"])\. (?=[A-Z(`_-])', text)
  if len(s) <= 3:
    return text
  n = -(-len(s) // 3)
  return '. '.join('; '.join(s[i:i + n]) for i in range(0, len(s), n))


def prop(id, title, statement, over, qtext, why, files, mech, note='', na='',
         state=None, observe=None, design=''):
  assert len(title) <= 80, (id, len(title))
  assert id not in [p['id'] for p in PROPS], id
  a = {'files': files.split(), 'mechanism': [
      {'name': n, 'where': w} for n, w in (x.split(' @ ') for x in mech)]}
  if observe:
    a['observe_at'] = observe
  PROPS.append({
      'id': id, 'title': title, 'statement': three(statement),
      'quantifier': {'over': quantified(over), 'text': ' '.join(qtext.split())},
      'why_tests_cant': ' '.join(why.split()), 'anchors': a})
  if na:
    NA[id] = ' '.join(na.split())
  NOTE[id] = ' '.join(note.split())
  DESIGN[id] = ' '.join(design.split())


TRUST = ('Trusts documented behaviour of external libraries and assumes no '
         'monkey-patching; every path of the analysed functions is covered, '
         'values are symbolic.')


def rule_texts(i):
  import re
  p = os.path.join(V, 'rules', i.lower() + '.py')
  if not os.path.exists(p):
    return []
  import ast
  out = []
  for n in ast.walk(ast.parse(open(p).read())):
    if isinstance(n, ast.Call) and isinstance(
        n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) == 2:
      try:
        a, b = ast.literal_eval(n.args[0]), ast.literal_eval(n.args[1])
      except ValueError:
        continue
      if (a, b) not in out:
        out.append((a, b))
  return out


def design_md():
  s = open(os.path.join(V, 'tools', 'design.md')).read()
  fixes = []
  for line in open(os.path.join(V, 'known_findings.jsonl')):
    line = line.strip()
    if line.startswith('fixed:'):
      fixes.append('* ' + line[6:].strip())
    elif line and not line.startswith('#'):
      d = json.loads(line)
      fixes.append(f"* known finding (not repaired), {d['property']} "
                   f"{d['rule']} {d['construct']}: {d['what']}")
  out = []
  for p in PROPS:
    i = p['id']
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i in NA:
      out.append('Not applicable: ' + NA[i] + '\n')
      continue
    if DESIGN[i]:
      out.append(DESIGN[i] + '\n')
    rt = rule_texts(i)
    if rt:
      out.append('Decided by `rules/' + i.lower() + '.py`, obligations per rule:')
      out += [f'* `{a}`: {b}' for a, b in rt]
      out.append('')
    else:
      out.append('Planned, not claimed yet.\n')
  sd = ['| bug | property | needs | caught by |', '|---|---|---|---|']
  d = os.path.join(V, 'seeded')
  for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, 'meta.json')))
    sd.append('| {} | {} | {} | {} |'.format(
        n, m['property'], ' '.join(m['needs'].split()),
        m.get('caught_by', m['property'])))
  s = s.replace('@FIXES@', '\n'.join(fixes)).replace(
      '@PROPS@', '\n'.join(out)).replace('@SEEDED@', '\n'.join(sd))
  f = os.path.join(V, 'tools', 'design_false.md')
  s = s.replace('@FALSE@', open(f).read() if os.path.exists(f) else '')
  open(os.path.join(V, 'DESIGN.md'), 'w').write(s)


def main():
  sys.path.insert(0, os.path.join(V, 'tools'))
  import propdefs  # pylint: disable=unused-import
  PROPS.sort(key=lambda p: p['id'])
  with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
      f.write(json.dumps(p) + '\n')
  checks, na = [], []
  for p in PROPS:
    i = p['id']
    has = os.path.exists(os.path.join(V, 'rules', i.lower() + '.py'))
    if i in NA:
      assert not has, i
      na.append({'property': i, 'reason': NA[i]})
    elif not has:
      na.append({'property': i, 'reason': 'the rule for this property is not '
                 'written yet'})
    else:
      checks.append({
          'property': i,
          'quick_cmd': f'python3 check.py {i} --tier quick',
          'thorough_cmd': f'python3 check.py {i} --tier thorough',
          'technique': 'static value-flow analysis of the source (symbolic '
                       'terms, path conditions, effect order) with '
                       'per-property rules',
          'level': 'other',
          'level_note': (NOTE[i] + ' ' if NOTE[i] else '') + TRUST})
  m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa rules check.py',
       'checks': checks, 'not_applicable': na,
       'notes': 'Every check parses /repo on each run; nothing is executed. '
                'thorough additionally runs the rule self-test '
                '(selftest/<id>.txt, source edits applied in memory).'}
  with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
  design_md()
  print(len(checks), 'claimed', len(na), 'not claimed')


if __name__ == '__main__':
  sys.modules['props'] = sys.modules['__main__']
  main()
