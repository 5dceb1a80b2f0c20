#!/bin/bash
# mut.sh PATCH|commit,commit PROP...: applies a patch to a copy of /repo (or reverts a
# commit there), shows it as /repo in a mount namespace of its own, runs checks.
p=$1; shift
d=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo $d/repo; mkdir $d/verif; (cd /verif; cp -a --parents spec tools harness properties.jsonl $(ls known_findings.json 2>/dev/null) $d/verif)
cd $d/repo; git checkout -q -- .
if [ -f "$p" ]; then git apply "$p" || exit 3; else for x in ${p//,/ }; do git diff $x $x~1 | git apply -3 || { rm -rf "$d"; exit 3; }; done; fi
run() { for c in "$@"; do python3 /verif/tools/check.py $c > $d/$c.log 2>&1; echo "$p $c rc=$?"; tail -${TAILN:-4} $d/$c.log | cut -c1-500; done; }
export -f run; export p d TAILN
unshare -m --propagation private bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && cd / && run $*"
[ -n "$KEEP" ] && cp $d/*.log /tmp/
rm -rf "$d"
