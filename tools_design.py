"""Fills the generated sections of DESIGN.md (between the BEGIN/END marks)."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import meta, not_applicable
R = os.path.dirname(os.path.abspath(__file__))


def props():
  out = []
  for pid in meta.ORDER:
    m = meta.META[pid]
    p = m['prop']
    out.append('### %s %s\n\n%s\n\n* Decided by: %s\n* Explored: %s\n'
               '* Real code: %s\n* Stand-ins: %s\n* Runs: quick %d, thorough '
               '%d\n* Why tests cannot: %s\n' % (
                   pid, p['title'], p['statement'], m['level_note'],
                   m['rule'], '; '.join(m['real']), '; '.join(m['stub']),
                   m['runs']['quick'], m['runs']['thorough'],
                   p['why_tests_cant']))
  for n in not_applicable.PROPS:
    p = n['prop']
    out.append('### %s %s (not applicable)\n\n%s\n' % (
        p['id'], p['title'], n['reason']))
  return '\n'.join(out)


def fixed():
  d = json.load(open(os.path.join(R, 'known_findings.json')))
  out = ['* ' + (x if isinstance(x, str) else json.dumps(x)) for x in d.get('fixed', [])]
  for x in d.get('known', []):
    out.append('* KNOWN (not repaired): %s' % json.dumps(x))
  return '\n'.join(out)


def catch():
  path = os.path.join(R, 'catch.json')
  got = json.load(open(path)) if os.path.exists(path) else {}
  out = ['| planted change | property | needs | quick check |', '|---|---|---|---|']
  for i in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = json.load(open(os.path.join(R, 'seeded', i, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (
        i, m['property'], m['needs'].replace('|', '/'), got.get(i, 'not run')))
  return '\n'.join(out)


path = os.path.join(R, 'DESIGN.md')
s = open(path).read()
for name, fn in (('PROPS', props), ('FIXED', fixed), ('CATCH', catch)):
  block = '<!-- BEGIN %s -->\n%s\n<!-- END %s -->' % (name, fn(), name)
  if '@@%s@@' % name in s:
    s = s.replace('@@%s@@' % name, block)
  else:
    s = re.sub('<!-- BEGIN %s -->.*<!-- END %s -->' % (name, name),
               lambda _: block, s, flags=re.S)
open(path, 'w').write(s)
