"""Writes properties.jsonl and MANIFEST.json from tools/props_*.py."""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
props = []
for f in sorted(glob.glob(os.path.join(here, 'props_*.py'))):
  props += importlib.import_module(os.path.basename(f)[:-3]).P
props.sort(key=lambda q: q['id'])
na = []
with open(os.path.join(root, 'properties.jsonl'), 'w') as out:
  for q in props:
    assert len(q['title']) <= 80, q['id']
    out.write(json.dumps(dict(
        id=q['id'], title=q['title'], statement=q['statement'],
        quantifier=dict(over=q['over'], text=q['text']),
        why_tests_cant=q['why'],
        anchors=dict(files=q['files'], mechanism=[
            dict(name=a, where=b) for a, b in q['mechanism']]))) + '\n')
checks = []
for q in props:
  if not os.path.exists(os.path.join(root, 'checks', q['id'].lower() + '.py')):
    na.append(dict(property=q['id'], reason=q.get('na', 'no check built yet')))
    continue
  checks.append(dict(
      property=q['id'], quick_cmd=f"bash run.sh {q['id']} quick",
      thorough_cmd=f"bash run.sh {q['id']} thorough",
      evidence_file=f"evidence/{q['id']}.json", technique=q['technique'],
      level=q['level'], level_note=q['note']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks,
               not_applicable=na),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
