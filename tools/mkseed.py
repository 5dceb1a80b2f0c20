#!/usr/bin/env python3
"""mkseed.py ID PROPERTY < spec: writes seeded/ID from a python description.

The description (a python file on stdin) sets: edits=[(file, old, new)], needs, breaks, pkg
(package directory below /repo), test (text of the demo test)."""
import json, os, subprocess, sys, tempfile
sid, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
with tempfile.TemporaryDirectory() as t:
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    for f, a, b in ns['edits']:
        p = t + '/r/' + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
open(d + '/patch.diff', 'w').write(diff)
json.dump({'property': prop, 'needs': ns['needs'], 'what_it_breaks': ns['breaks']},
          open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo_test.go.txt', 'w').write(ns['test'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds here; otherwise it is broken.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0 GOFLAGS=
export SCOUTER_AGENT_HOME=$t/home; mkdir -p "$t/home"
cp /repo/go.mod "$t/go.mod" && cp /repo/go.sum "$t/go.sum" || exit 2
cp "$here/demo_test.go.txt" "$t/zz_demo_test.go"
others=$(cd /repo/%s && ls *_test.go 2>/dev/null)
{ echo '{"Replace": {'
  for o in $others; do echo "\\"/repo/%s/$o\\": \\"\\","; done
  echo "\\"/repo/%s/zz_demo_test.go\\": \\"$t/zz_demo_test.go\\""
  echo '}}'; } > "$t/overlay.json"
cd /repo && go test -mod=mod -modfile="$t/go.mod" -overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%s
''' % ((ns['pkg'],) * 4))
