#!/usr/bin/env python3
"""mutate.py WORKERS COUNT SEED OUT [FILE...]: plants small random changes one by one (in private copies) and
reports those no relevant check notices. An aid for finding blind spots; nothing else uses it."""
import json, os, random, re, subprocess, sys, tempfile, time, pathlib, shutil
CHECKS = [
 (r'encoding/bitpacked', 'P13 P16 P14 P20'), (r'encoding/hybrid_rle', 'P14 P15 P20 P19'), (r'encoding/delta_bitpacked', 'P16 P17 P19'),
 (r'encoding/delta', 'P17 P19'), (r'encoding/plain', 'P17 P19 P20'), (r'encoding/(uleb|zigzag)', 'P18 P16 P14'),
 (r'encoding/', 'P13 P14 P16 P19'), (r'deserialize/filtered', 'P21 P15 P19'), (r'deserialize/hybrid', 'P15 P20 P19'),
 (r'deserialize', 'P20 P21 P19'), (r'indexes/intervals', 'P22 P23'), (r'indexes', 'P24 P23 P07'), (r'read/indexes', 'P24 P07 P05 P08'),
 (r'read/page/indexed', 'P23 P08 P05 P09 P07'), (r'read/page/stream', 'P04 P09 P08 P07'), (r'read/page', 'P01 P05 P08 P09 P07 P04'),
 (r'read/column', 'P32 P01 P04 P08 P09'), (r'read/compression', 'P12 P01 P10 P07'), (r'read/metadata', 'P30 P08 P05 P07'),
 (r'read/stream', 'P04 P30 P08 P07'), (r'read/', 'P32 P01 P04 P20'), (r'compression', 'P10 P11 P12 P07'), (r'bloom', 'P31 P05 P08 P07'),
 (r'schema/io_message', 'P28'), (r'schema', 'P27 P29 P28 P30'), (r'statistics', 'P25 P26 P07') , (r'write/statistics', 'P26 P03'),
 (r'write/indexes', 'P24 P26'), (r'write/compress', 'P12 P01 P10'), (r'write/stream', 'P03 P06 P05'), (r'write/', 'P01 P02 P03 P06 P26 P24 P05'),
 (r'metadata/', 'P30 P27 P29 P01 P02 P07 P33'), (r'page/', 'P19 P20 P12 P01 P02'), (r'types.rs', 'P34 P26'), (r'parquet_bridge', 'P35 P29 P30 P27 P01 P10 P33'),
 (r'transport|error|lib.rs', 'P05 P08 P07 P06'),
]
OPS = [
 (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
 (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' && ', ' || '), (r' \|\| ', ' && '),
 (r'\+= ', '-= '), (r'-= ', '+= '), (r'>> ', '<< '), (r'<< ', '>> '), (r' \| ', ' & '), (r' & ', ' | '), (r'\^', '|'),
 (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b([2-9]|[1-9]\d+)\b', None),
 (r'\bif ', 'if false && '), (r'\bif ', 'if true || '), (r'!(\w)', r'\1'), (r'\bSome\(', 'None.or('), (r'\.rev\(\)', ''), (r'\bunwrap_or_default\(\)', 'unwrap_or(1)'),
 (r'\.take\(', '.skip('), (r'_sub\(', '_add('), (r'_add\(', '_sub('), (r'\bOk\(', 'Ok('), (r'\bmin_value\b', 'max_value'), (r'\bmax_value\b', 'min_value'),
 (r'rep_level', 'def_level'), (r'def_level', 'rep_level'), (r'_le_bytes', '_be_bytes'), (r'compressed_size', 'uncompressed_size'), (r'\bstart\b', 'end'),
 (r'^(\s*)[\w.*]+ [-+|]?= .*;$', r'\1;'), (r'^(\s*)[\w.]+\([^{}]*\);$', r'\1;'), (r'\?;$', None), (r' => return Err\(.*', None),
]
def code_lines(path):
    s = open(path).read()
    out = []
    for i, l in enumerate(s.split('\n')):
        if re.match(r'\s*#\[cfg\(test\)\]', l): break
        t = l.strip()
        if not t or t.startswith('//') or t.startswith('#') or t.startswith('use ') or t.startswith('pub use') or 'oos(' in t or t.startswith('"'): continue
        out.append(i)
    return out
def mutants(files):
    all = []
    for f in files:
        ls = open(f).read().split('\n')
        for i in code_lines(f):
            l = ls[i]
            code = l.split(' //')[0]
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    if rep is None:
                        if m.re.groups and m.group(1).isdigit(): new = str(int(m.group(1)) + 1)
                        else: continue
                    else: new = m.expand(rep)
                    if "'" in pat: continue
                    n = l[:m.start()] + new + l[m.end():]
                    if n != l and not re.search(r'[<&]\'?\w*$', l[:m.start()]) : all.append((f, i, n))
    return sorted(set(all))
def worker(w, todo, out):
    s = tempfile.mkdtemp(prefix='/tmp/mut.')
    try:
        for d in ('verif', 'verif/evidence', 'verif/replays'): os.mkdir(f'{s}/{d}')
        subprocess.check_call(f'cp -a /verif/check /verif/harness /verif/flex /verif/bare /verif/known_findings.jsonl /verif/properties.jsonl /verif/MANIFEST.json {s}/verif/', shell=True)
        subprocess.check_call(f'mkdir {s}/repo && tar -C /repo --exclude=./target -cf - . | tar -C {s}/repo -xf - && mount --bind {s}/repo /repo && mount --bind {s}/verif /verif', shell=True)
        for f, i, new in todo:
            old = open(f).read(); ls = old.split('\n'); was = ls[i]; ls[i] = new
            open(f, 'w').write('\n'.join(ls))
            rec = {'file': f, 'line': i + 1, 'old': was.strip(), 'new': new.strip()}
            t = time.time()
            b = subprocess.run(['/verif/check', '--build-harness'], capture_output=True, text=True)
            if b.returncode: rec['result'] = 'nobuild'
            else:
                rec['result'] = 'SURVIVED'
                for c in next(c for p, c in CHECKS if re.search(p, f)).split():
                    try: r = subprocess.run(['/verif/check', c], capture_output=True, text=True, timeout=600, env=dict(os.environ, VERIF_DIR='/verif'))
                    except subprocess.TimeoutExpired: rec['result'] = 'timeout ' + c; break
                    if r.returncode == 1: rec['result'] = 'caught ' + c; break
                    if r.returncode: rec['result'] = f'exit {r.returncode} ' + c + r.stdout[-300:]; break
                if rec['result'] == 'SURVIVED':
                    subprocess.run(f'bash /opt/vp/test.sh {s}/out.json', shell=True, capture_output=True, timeout=900)
                    try:
                        j = json.load(open(f'{s}/out.json')); base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                        p = set(j['passed']) if isinstance(j.get('passed'), list) else {k for k, v in j.get('tests', j).items() if v in ('passed', 'pass', 'ok', True)}
                        if base - p: rec['result'] = 'TESTS-ONLY'
                    except Exception as e: rec['result'] += ' tests? ' + str(e)
            rec['t'] = int(time.time() - t)
            with open(out, 'a') as o: o.write(json.dumps(rec) + '\n')
            open(f, 'w').write(old)
    finally:
        subprocess.run('umount /repo /verif', shell=True); shutil.rmtree(s)
if sys.argv[1] == '--worker':
    worker(int(sys.argv[2]), json.load(open(sys.argv[3])), sys.argv[4]); sys.exit()
n, count, seed, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
files = sys.argv[5:] or sorted(str(p) for p in pathlib.Path('/repo/src').rglob('*.rs') if 'parquet-format' not in str(p))
random.seed(seed)
m = mutants(files); print(len(m), 'mutants')
# at most one per line, so that every part of the code is sampled
random.shuffle(m); seen = set(); pick = []
for x in m:
    if (x[0], x[1]) not in seen: seen.add((x[0], x[1])); pick.append(x)
pick = pick[:count]
if os.path.exists(out):
    done = {(json.loads(l)['file'], json.loads(l)['new']) for l in open(out)}
    pick = [x for x in pick if (x[0], x[2].strip()) not in done]
print(len(pick), 'picked')
ps = []
cores = os.cpu_count()
for w in range(n):
    j = f'{out}.todo{w}'; json.dump(pick[w::n], open(j, 'w'))
    a, b = w * cores // n, (w + 1) * cores // n - 1
    ps.append(subprocess.Popen(['unshare', '-m', 'taskset', '-c', f'{a}-{b}', 'nice', sys.executable, os.path.abspath(__file__), '--worker', str(w), j, out], cwd='/'))
for p in ps: p.wait()
