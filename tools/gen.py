"""Write /verif/properties.jsonl and /verif/MANIFEST.json from tools/table.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import P  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps({
            'id': x['id'], 'title': x['title'], 'statement': x['statement'],
            'quantifier': {'over': x['over'], 'text': x['text']},
            'why_tests_cant': x['why'],
            'anchors': {'files': x['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in x['mech']],
                        'observe_at': x['observe'], 'hook_needed': None},
        }, ensure_ascii=False) + '\n')

checks, na = [], []
for x in P:
    if os.path.exists(os.path.join(ROOT, 'vh', 'props', x['module'] + '.py')):
        checks.append({
            'property': x['id'],
            'quick_cmd': f"./check {x['module']} --tier quick",
            'thorough_cmd': f"./check {x['module']} --tier thorough",
            'technique': x['technique'], 'level': 'exploration', 'level_note': x['note'],
            'evidence_file': f"evidence/{x['id']}.json"})
    else:
        na.append({'property': x['id'], 'reason': 'The technique applies; the check has not been built yet.'})
json.dump({'version': 1, 'setup_cmd': './check list', 'checks': checks, 'not_applicable': na,
           'notes': 'Generated by tools/gen.py from tools/table.py. See DESIGN.md.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
