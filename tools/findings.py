"""Writes KNOWN_FINDINGS.json: the repaired defects (with their commits in /repo) and the listed ones."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True, check=True).stdout.splitlines()
fixes = {}
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        fixes[s[5:]] = h
from findings_list import FIXED, KNOWN
out = []
for k in KNOWN:
    out.append(dict(k, status='known'))
left = dict(fixes)
for prop, subject, what in FIXED:
    h = [fixes[s] for s in fixes if s.startswith(subject)]
    assert len(h) == 1, (subject, h)
    left = {s: v for s, v in left.items() if v != h[0]}
    out.append(dict(id=f'fixed-{h[0]}', property=prop, status='fixed', commit=h[0], what=f'fixed: property={prop} {h[0]} {what}'))
assert not left, left
json.dump(out, open(os.path.join(here, 'KNOWN_FINDINGS.json'), 'w'), indent=1)
print(len(KNOWN), 'known', len(FIXED), 'fixed')
