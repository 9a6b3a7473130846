"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from props import P
with open(os.path.join(here, 'properties.jsonl'), 'w') as fh:
    for p in sorted(P, key=lambda p: p['id']):
        fh.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh',
    checks=[dict(property=p['id'], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
        technique='property-based testing' + (' and sanitizer fuzzing' if os.path.exists(os.path.join(here, 'checks', p['id'] + '.asan')) else '') + ' with an independent oracle, shrinking and replay (Hypothesis)',
        level='exploration', level_note=p['level_note']) for p in sorted(P, key=lambda p: p['id'])],
    not_applicable=[], notes='No hooks in /repo. See DESIGN.md and KNOWN_FINDINGS.json.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
for p in P:
    assert len(p['title']) <= 80, p['id']
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
    assert os.path.exists(os.path.join(here, 'checks', p['id'] + '.py')), p['id']
    for f in p['files']:
        assert os.path.exists('/repo/' + f), (p['id'], f)
print(len(P), 'properties')
