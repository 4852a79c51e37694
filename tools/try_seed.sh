#!/bin/bash
# try_seed.sh ID [CHECK...]: in a private mount namespace, with copies in place of /repo and /verif, confirms
# a planted bug (demo passes without and fails with it, the stable tests pass) and runs the given checks
# against it. NOTESTS=1 skips the tests.
if [ -z "$IN_NS" ]; then exec env IN_NS=1 unshare -m bash "$0" "$@"; fi
id=$1; shift
s=$(mktemp -d /tmp/seed.XXXX)
cd /
trap 'cd /; umount /repo /verif 2>/dev/null; rm -rf "$s"' EXIT
mkdir $s/repo $s/verif
cp -a /verif/{check,harness,flex,bare,known_findings.jsonl,properties.jsonl,MANIFEST.json,seeded} $s/verif/
mkdir -p $s/verif/evidence $s/verif/replays
tar -C /repo --exclude=./target -cf - . | tar -C $s/repo -xf -
mount --bind $s/repo /repo || exit 3
mount --bind $s/verif /verif || exit 3
d=/verif/seeded/$id
cp -r $d $s/demo; rm -f $s/demo/*.diff $s/demo/meta.json
cd /repo || exit 2
timeout 300 bash $s/demo/demo.sh >$s/clean.log 2>&1; r=$?
if [ $r = 0 ]; then echo "$id demo clean: ok"; else echo "$id demo clean FAILED ($r)"; tail -15 $s/clean.log; fi
git apply $d/patch.diff || exit 3
timeout 300 bash $s/demo/demo.sh >$s/bug.log 2>&1; r=$?
if [ $r = 2 ]; then echo "$id DOES NOT BUILD"; tail -15 $s/bug.log; elif [ $r != 0 ]; then echo "$id demo with the bug fails: ok: $(grep -v '^ ' $s/bug.log | grep -v '^note' | tail -3 | cut -c1-200)"; else echo "$id demo with the bug PASSES"; fi
if [ -z "$NOTESTS" ]; then
  bash /opt/vp/test.sh $s/out.json >/dev/null 2>&1
  python3 - $s/out.json $id <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open(sys.argv[1]))
p=set(r['passed']) if isinstance(r.get('passed'),list) else set(k for k,v in r.get('tests',r).items() if v in('passed','pass','ok',True))
m=b-p; print(sys.argv[2], "stable tests:", "ok" if not m else f"FAIL {sorted(m)[:5]}")
P
fi
for c in "$@"; do
  out=$(/verif/check $c 2>&1); r=$?
  echo "$id $c: exit $r: $(echo "$out" | grep -v KNOWN | tail -3 | head -2 | cut -c1-300)"
done
