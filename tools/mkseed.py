#!/usr/bin/env python3
"""mkseed.py FILE: writes seeded/<id>/ from a description: a python file defining
id, property, needs, breaks, edits=[(path, old, new)], demo (text of demo.rs)."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
BASE = '562df27'
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    d = pathlib.Path('/verif/seeded') / g['id']
    d.mkdir(parents=True, exist_ok=True)
    t = tempfile.mkdtemp(prefix='/tmp/mkseed.')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.check_call(f'git -C /repo archive HEAD | tar -x -C {t}', shell=True)
        subprocess.check_call(['git', 'init', '-q'], cwd=t)
        subprocess.check_call('git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=t)
        for path, old, new in g['edits']:
            p = pathlib.Path(t) / path
            s = p.read_text()
            assert s.count(old) == 1, (f, path, old, s.count(old))
            p.write_text(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=t, text=True)
        (d / 'patch.diff').write_text(diff)
        # the patch has to change lines of the original repository
        removed, path = [], None
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                path = line[6:]
                base = subprocess.check_output(['git', '-C', '/repo', 'show', BASE + ':' + path], text=True).splitlines()
            elif line.startswith('-') and not line.startswith('---'):
                removed.append(line[1:])
                if line[1:].strip() and line[1:] not in base:
                    print(g['id'], 'WARNING: not an original line:', path, line)
        if not any(x.strip() for x in removed):
            print(g['id'], 'WARNING: removes no line')
    finally:
        shutil.rmtree(t)
    (d / 'demo.rs').write_text(open('/verif/tools/demo_prelude.rs').read() + g['demo'].lstrip('\n'))
    demo = open('/verif/tools/demo_template.sh').read()
    if 'deps' in g:
        demo = demo.replace('features = ["full"]', 'features = ["full", "serde_types"]').replace('futures = "0.3"', 'futures = "0.3"\n' + g['deps'])
    (d / 'demo.sh').write_text(demo)
    os.chmod(d / 'demo.sh', 0o755)
    json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']},
              open(d / 'meta.json', 'w'), indent=1)
    print(g['id'])
