#!/bin/bash
# seedcheck.sh ID WORKTREE [PROPERTY...]: confirms a planted bug in a scratch worktree (builds, stable tests pass,
# demo passes without it and fails with it) and runs the checks of the properties against it.
id=$1; wt=$2; shift 2
. /opt/vp/env.sh
d=/verif/seeded/$id
cd "$wt" || exit 1
git checkout -q -- .
bash $d/demo.sh > /tmp/seedlog/$id.clean 2>&1 && echo "$id demo clean: ok" || { echo "$id demo clean: FAILS"; tail -30 /tmp/seedlog/$id.clean; exit 1; }
git apply $d/patch.diff || { echo "$id does not apply"; exit 1; }
bash $d/demo.sh > /tmp/seedlog/$id.bug 2>&1 && { echo "$id demo with bug: PASSES"; git checkout -q -- .; exit 1; } || echo "$id demo with bug: fails as wanted ($(grep -m1 -E 'Error:|panic:|cannot|undefined' /tmp/seedlog/$id.bug))"
if [ -z "$NOTEST" ]; then
go test -json -vet=off -count=1 -tags norace -timeout 10m ./... > /tmp/seedlog/$id.json 2>/dev/null
python3 /opt/vp/results.py /tmp/seedlog/$id.out gojson:/tmp/seedlog/$id.json
python3 - "$id" <<'P'
import json, sys
o = json.load(open(f'/tmp/seedlog/{sys.argv[1]}.out')); b = json.load(open('/opt/vp/BASELINE.json'))
bad = set(b['stable']) - set(o['passed'])
print(sys.argv[1], 'tests:', 'ok' if not bad else ['FAIL', sorted(bad)[:6]])
P
rm -f /tmp/seedlog/$id.json
fi
for p in "$@"; do
  (cd /verif; MC_REPO=$wt timeout 900 ./check.sh $p quick 2>&1 | grep -E "^VIOLATION|sig" | head -3 | cut -c1-300; ) > /tmp/seedlog/$id.$p
  grep -q "^VIOLATION property=$p " /tmp/seedlog/$id.$p && echo "$id: caught by $p: $(cut -c1-200 /tmp/seedlog/$id.$p|head -1)" || echo "$id: NOT caught by $p"
done
git checkout -q -- .
