#!/bin/bash
# equiv.sh FILE.py [CHECK...]: the checks have to stay quiet on these behaviour-preserving edits (in a scratch copy).
F=$(realpath "$1"); shift
D=$(mktemp -d /tmp/equiv-XXXXXX)
cp -a /repo/PTN_Engine "$D"/
python3 - "$F" "$D" <<'P' || exit 9
import sys, pathlib
g = {}
exec(compile(pathlib.Path(sys.argv[1]).read_text(), sys.argv[1], "exec"), g)
def f(p, a, b, n=1):
    q = pathlib.Path(sys.argv[2]) / "PTN_Engine" / p
    s = q.read_bytes().decode()
    crlf = "\r\n" in s
    s = s.replace("\r\n", "\n")
    assert a in s, (p, a)
    s = s.replace(a, b, n) if n else s.replace(a, b)
    q.write_bytes((s.replace("\n", "\r\n") if crlf else s).encode())
g["edit"](f)
P
for c in ${@:-$(seq -f C%02g 1 26)}; do
	t=$SECONDS
	o=$(VP_REPO=$D timeout 900 python3 /verif/tools/run_check.py $c 2>&1); r=$?
	[ $r = 0 ] && echo "$(basename $F) $c quiet $((SECONDS-t))s" || { echo "$(basename $F) $c ALARM rc=$r"; echo "$o" | tail -5; }
done
find "$D" -delete
