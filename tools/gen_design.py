#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md and the committed data."""
import json, re, os, glob, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from claims import CLAIMS
from design_props import HOW
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
parts = {}
for f in glob.glob(root + '/harness/src/props/*.rs'):
    t = open(f).read()
    cur = None
    for m in re.finditer(r'id: "(P\d\d)"|Part \{ name: "([^"]+)", f: \w+, quick: ([\d_]+), thorough: ([\d_]+)|rule: "([^"]+)"', t):
        if m.group(1): cur = m.group(1); parts.setdefault(cur, {'parts': [], 'rule': ''})
        elif m.group(2): parts[cur]['parts'].append((m.group(2), int(m.group(3).replace('_', '')), int(m.group(4).replace('_', ''))))
        elif m.group(5): parts[cur]['rule'] = m.group(5)
out = []
for p in props:
    i = p['id']; h = HOW[i]
    pt = '; '.join(f'{n} {q:,}/{t:,}' for n, q, t in parts[i]['parts'])
    out.append(f"### {i} {p['title']}\n*Method.* {CLAIMS[i][0]}.\n\n{h.strip()}\n\n*Cases (quick/thorough).* {pt}. {parts[i]['rule'][0].upper() + parts[i]['rule'][1:]}.\n")
kf = [json.loads(l) for l in open(root + '/known_findings.jsonl') if l.strip()]
fixed = [k for k in kf if k['status'] == 'fixed']; known = [k for k in kf if k['status'] == 'known']
ft = '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(f"| {k['property']} | {k['commit']} | {k['what'].replace('|', '/')} |" for k in fixed)
kt = '\n'.join(f"* {k['property']} (part {k['part']}, signature {k['sig']}): {k['what']}" for k in known)
bugs = '| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
caught = json.load(open(here + '/caught.json'))
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    bugs += f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(b, 'not confirmed')} |\n"
t = open(here + '/design.md').read()
for k, v in {'FIXED': str(len(fixed)), 'PROPS': '\n'.join(out), 'FIXEDTABLE': ft, 'KNOWNTABLE': kt, 'BUGS': bugs, 'MISSED': open(here + '/missed.md').read(), 'MUTATION': open(here + '/mutation.md').read()}.items():
    t = t.replace('@' + k + '@', v)
open(root + '/DESIGN.md', 'w').write(t)
print(len(t))
