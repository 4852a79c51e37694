#!/usr/bin/env python3
"""Lists planted bugs whose removed lines are not the original repository's (they would not count)."""
import pathlib, re, subprocess
BASE = '562df27'
for d in sorted(pathlib.Path('/verif/seeded').glob('*/patch.diff')):
    path, n, blame, bad, good = None, 0, [], [], 0
    for line in d.read_text().splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
            blame = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', path], text=True).splitlines()
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('+') or line.startswith('diff') or line.startswith('index'):
            pass
        elif path and n:
            if line.startswith('-') and not line.startswith('---') and line[1:].strip():
                if blame[n - 1].lstrip('^').startswith(BASE): good += 1
                else: bad.append(line)
            n += 1
    if bad or not good: print(d.parent.name, 'original', good, 'ours', len(bad), bad[:3])
