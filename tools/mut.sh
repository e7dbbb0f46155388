#!/bin/bash
# mut.sh '<sed expr>' <file below PTN_Engine> CHECK... : run checks against a mutated scratch copy of the engine
D=$(mktemp -d /tmp/mut-XXXXXX); cp -a /repo/PTN_Engine $D/
[ -d /repo/Examples ] && cp -a /repo/Examples $D/
sed -i -E "$1" $D/PTN_Engine/$2
if diff -rq /repo/PTN_Engine $D/PTN_Engine >/dev/null; then echo "NO CHANGE: $1"; rm -rf "$D"; exit 9; fi
diff -r /repo/PTN_Engine $D/PTN_Engine | grep '^[<>]' | head -6
shift 2
for c in "$@"; do echo "--- $c"; VP_REPO=$D timeout 900 python3 /verif/tools/run_check.py $c | tail -4 | cut -c1-400; done
rm -rf "$D"
