#!/usr/bin/env python3
"""Creates /verif/seeded/<id> from a spec: mkseed.py SPEC.json WORKTREE
spec: {id, property, needs, what, edits:[[file, old, new]], pkg, run, test (go source)}"""
import json, os, subprocess, sys
spec = json.load(open(sys.argv[1])); wt = sys.argv[2]
subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '--', '.'])
for f, old, new in spec['edits']:
    p = os.path.join(wt, f); s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, 'w').write(s.replace(old, new))
d = '/verif/seeded/' + spec['id']; os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', wt, 'diff']).decode()
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo_test.go', 'w').write(spec['test'])
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# Runs demo_test.go as part of {spec['pkg']} (through an overlay: nothing is written in the repository).
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{{\\"Replace\\": {{\\"$repo/{spec['pkg']}/seeded_demo_test.go\\": \\"$here/demo_test.go\\"}}}}" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -tags norace -vet=off -count=1 -run '{spec['run']}' ./{spec['pkg']}
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['what']}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/meta.json', 'a').write('\n')
subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '--', '.'])
