#!/usr/bin/env python3
"""try_edits.py FILE...: each FILE defines EDITS = [(name, 'P01 P02', [(path under src, old, new), ...]), ...].
Plants each in a private copy and prints which of the named checks notice it. An aid; nothing else uses it."""
import os, subprocess, sys, tempfile, shutil, time
if not os.environ.get('IN_NS'):
    os.execvpe('unshare', ['unshare', '-m', sys.executable, os.path.abspath(__file__)] + [os.path.abspath(x) for x in sys.argv[1:]], dict(os.environ, IN_NS='1'))
entries = []
for f in sys.argv[1:]:
    g = {}; exec(open(f).read(), g); entries += g['EDITS']
only = os.environ.get('ONLY'); 
if only: entries = [e for e in entries if e[0] in only.split()]
s = tempfile.mkdtemp(prefix='/tmp/te.'); os.chdir('/')
try:
    for d in ('verif', 'verif/evidence', 'verif/replays'): os.mkdir(f'{s}/{d}')
    subprocess.check_call(f'cp -a /verif/check /verif/harness /verif/flex /verif/bare /verif/known_findings.jsonl /verif/properties.jsonl /verif/MANIFEST.json {s}/verif/', shell=True)
    subprocess.check_call(f'mkdir {s}/repo && tar -C /repo --exclude=./target -cf - . | tar -C {s}/repo -xf - && mount --bind {s}/repo /repo && mount --bind {s}/verif /verif', shell=True)
    for name, checks, edits in entries:
        old = {}
        bad = None
        for p, a, b in edits:
            p = '/repo/src/' + p; t = open(p).read()
            old.setdefault(p, t)
            if t.count(a) != 1: bad = f'{t.count(a)} occurrences of {a!r} in {p}'; break
            open(p, 'w').write(t.replace(a, b))
        res = []
        if bad: res = [bad]
        else:
            r = subprocess.run(['/verif/check', '--build-harness'], capture_output=True, text=True)
            if r.returncode: res = ['DOES NOT BUILD ' + ' '.join(l for l in (r.stdout + r.stderr).split('\n') if l.startswith('error'))[:300]]
            else:
                for c in checks.split():
                    try: r = subprocess.run(['/verif/check', c], capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_DIR='/verif'))
                    except subprocess.TimeoutExpired: res.append(f'{c}: TIMEOUT'); continue
                    res.append(f'{c}: ' + ({0: 'MISSED', 1: 'caught'}.get(r.returncode, f'exit {r.returncode}')) + (' ' + [l for l in r.stdout.split('\n') if l.startswith('part')][0][:110] if r.returncode == 1 else ''))
                if not any('caught' in x for x in res):
                    subprocess.run(f'bash /opt/vp/test.sh {s}/out.json', shell=True, capture_output=True)
                    import json
                    j = json.load(open(f'{s}/out.json')); base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                    p = set(j['passed']) if isinstance(j.get('passed'), list) else {k for k, v in j.get('tests', j).items() if v in ('passed', 'pass', 'ok', True)}
                    res.append('tests ok' if not base - p else f'TESTS FAIL {sorted(base - p)[:2]}')
        print(name, '|', ' ; '.join(res), flush=True)
        for p, t in old.items(): open(p, 'w').write(t)
finally:
    subprocess.run('umount /repo /verif', shell=True); shutil.rmtree(s)
