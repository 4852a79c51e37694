#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
# id -> (technique, what the check assumes / trusts)
exec(open(os.path.join(root, 'tools/claims.py')).read())
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i} --quick',
            'thorough_cmd': f'./check {i} --thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': t,
            'level': 'exploration',
            'level_note': note,
        })
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {
    'version': 1,
    'setup_cmd': './check --build',
    'checks': checks,
    'not_applicable': na,
    'notes': 'One Rust harness (harness/) with a path dependency on /repo, rebuilt by every command. No hooks in /repo: every property is decided through its public API. known_findings.jsonl lists repaired and recorded defects.',
}
open(os.path.join(root, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'claimed', len(na), 'not')
