#!/bin/bash
# mutp.sh '<python code editing files; f(path, old, new)>' CHECK... : like mut.sh, with several edits
D=$(mktemp -d /tmp/mut-XXXXXX); cp -a /repo/PTN_Engine $D/
[ -d /repo/Examples ] && cp -a /repo/Examples $D/
(cd $D/PTN_Engine && python3 -c "
def f(p,a,b,n=1):
    s=open(p).read(); assert a in s,(p,a); open(p,'w').write(s.replace(a,b,n) if n else s.replace(a,b))
$1") || { rm -rf "$D"; exit 9; }
diff -r /repo/PTN_Engine $D/PTN_Engine | grep '^[<>]' | head -8
shift
for c in "$@"; do echo "--- $c"; VP_REPO=$D timeout 900 python3 /verif/tools/run_check.py $c | tail -4 | cut -c1-400; done
rm -rf "$D"
