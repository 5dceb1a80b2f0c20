#!/bin/bash
# seedtest.sh ID...: for each planted bug: it applies, builds, the demo passes without it and
# fails with it, and (TESTS=1) the stable tests still pass.
run1() {
  id=$1; d=$(mktemp -d /tmp/seedt.XXXXXX); cp -a /repo $d/repo; cp -a /verif/seeded/$id $d/demo
  (cd $d/repo && git checkout -q -- .)
  unshare -Urm bash -c "mount --bind $d/repo /repo; cd /repo
    bash $d/demo/demo.sh >$d/a.log 2>&1; a=\$?
    git apply $d/demo/patch.diff || echo DOES NOT APPLY
    PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod go build ./... || echo DOES NOT BUILD
    bash $d/demo/demo.sh >$d/b.log 2>&1; b=\$?
    echo $id unchanged=\$a patched=\$b; [ \$a = 0 ] || tail -15 $d/a.log; [ \$b != 0 ] && tail -${TAILN:-3} $d/b.log
    export PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
    m=github.com/scouter-contrib/scouter-agent-golang/scouterx
    go test -json -vet=off -count=1 -timeout 2m \$(go list ./... | grep -vxE \"\$m|\$m/netio|\$m/netio/udpsender|\$m/strace\") 2>/dev/null | python3 -c 'import sys,json
st=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"])
for l in sys.stdin:
    e=json.loads(l)
    if e.get(\"Action\")==\"fail\" and e.get(\"Test\") and e[\"Package\"]+\"/\"+e[\"Test\"] in st: print(\"   STABLE TEST FAILS\", e[\"Test\"])'
    git status --short | grep -v '^ M' "
  rm -rf "$d"
}
export -f run1; export TAILN
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'run1 {}'
