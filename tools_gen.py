"""Writes properties.jsonl and MANIFEST.json from sim/meta.py."""
import json
import os

from sim import meta
from sim import not_applicable as na

ROOT = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
  for pid in meta.ORDER:
    f.write(json.dumps(meta.META[pid]['prop']) + '\n')
  for p in na.PROPS:
    f.write(json.dumps(p['prop']) + '\n')
checks = []
for pid in meta.ORDER:
  m = meta.META[pid]
  checks.append(dict(
      property=pid,
      quick_cmd='python3 -m sim.runner %s --tier quick' % pid,
      thorough_cmd='python3 -m sim.runner %s --tier thorough' % pid,
      evidence_file='evidence/%s.json' % pid,
      technique=m['technique'], level=m['level'], level_note=m['level_note']))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump(dict(
      version=1, setup_cmd='true', checks=checks,
      not_applicable=[dict(property=p['prop']['id'], reason=p['reason'])
                      for p in na.PROPS]), f, indent=1)
  f.write('\n')
