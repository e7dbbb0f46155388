#!/usr/bin/env python3
"""plant.py FILE...: makes /verif/seeded/<id>/ from descriptions, after confirming each in a scratch copy.

A description is a Python file defining id, prop, needs, what, edit(f) and demo (C++ source), optionally
flags (extra compiler flags; with sources=True the demo is compiled with /repo's sources) and limit (s).
The copy is mounted over /repo in a namespace of its own, so that build.sh and test.sh apply to it.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
BASE = json.load(open("/opt/vp/BASELINE.json"))
PRE = '''#!/bin/bash
# Compiles demo.cpp against /repo and runs it: exit 0 if the property holds, else nonzero.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -delete' EXIT
cd "$T" || exit 99
'''
LIB = '''g++ -std=c++20 -O1 %s -I/repo/PTN_Engine/include -I/repo/PTN_Engine/ImportExport/include -I/repo "$D/demo.cpp" \\
	/repo/_build/lib/libImportExport.a /repo/_build/lib/libPTN_Engine.a -lpugixml -pthread -o "$T/demo" || exit 98
timeout %d "$T/demo"
'''
SRC = '''g++ -std=c++20 -O1 -g %s -I/repo/PTN_Engine/include -I/repo/PTN_Engine/ImportExport/include -I/repo -I/repo/PTN_Engine/ImportExport \\
	-I/repo/PTN_Engine/ImportExport/XML/src "$D/demo.cpp" $(find /repo/PTN_Engine -name '*.cpp') -lpugixml -pthread -o "$T/demo" || exit 98
timeout %d "$T/demo"
'''


def sh(cmd, mount, timeout=900):
    full = ["unshare", "-Urm", "bash", "-c", f"mount --bind {mount} /repo && cd /repo && {cmd}"]
    p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def passed(path):
    return set(json.loads(pathlib.Path(path).read_text())["passed"])


def stable():
    b = BASE.get("stable") or BASE.get("passed") or BASE.get("tests") or BASE
    return set(b if isinstance(b, list) else b["passed"])


def plant(file):
    g = {}
    exec(compile(pathlib.Path(file).read_text(), file, "exec"), g)
    d = V / "seeded" / g["id"]
    w = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        subprocess.run(["cp", "-a", "/repo/.", str(w)], check=True)
        subprocess.run(["git", "-C", str(w), "checkout", "-q", "--", "."], check=True)
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.cpp").write_text(g["demo"])
        (d / "demo.sh").write_text(PRE + (SRC if g.get("sources") else LIB) % (g.get("flags", ""), g.get("limit", 120)))
        os.chmod(d / "demo.sh", 0o755)
        demo = f"bash {d}/demo.sh"
        for i in range(g.get("repeat", 3)):
            rc, out = sh(demo, w)
            if rc != 0:
                return f"demo fails ({rc}) on the unchanged tree: {out[-1500:]}"

        def f(p, a, b, n=1):
            q = w / "PTN_Engine" / p
            s = q.read_bytes().decode()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            assert a in s, (p, a)
            s = s.replace(a, b, n) if n else s.replace(a, b)
            q.write_bytes((s.replace("\n", "\r\n") if crlf else s).encode())
        g["edit"](f)
        diff = subprocess.run(["git", "-C", str(w), "diff"], stdout=subprocess.PIPE, check=True).stdout
        (d / "patch.diff").write_bytes(diff)
        rc, out = sh("bash /opt/vp/build.sh", w)
        if rc != 0:
            return "does not build: " + out[-2500:]
        for i in range(g.get("repeat", 3)):
            rc, out = sh(demo, w)
            if rc == 0 or rc in (98, 99):
                return f"demo exits {rc} with the patch (run {i}): {out[-800:]}"
        res = w / "_build" / "plant.json"
        for i in range(2):
            rc, out = sh(f"bash /opt/vp/test.sh {res}", w)
            missing = stable() - passed(res)
            if not missing:
                break
        if missing:
            return f"tests fail: {sorted(missing)[:5]}"
        (d / "meta.json").write_text(json.dumps(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["what"]), indent=1) + "\n")
        return "planted"
    finally:
        shutil.rmtree(w, ignore_errors=True)


for a in sys.argv[1:]:
    try:
        r = plant(a)
    except Exception as x:
        r = f"error: {x!r}"
    print(pathlib.Path(a).stem, r, flush=True)
    if r != "planted":
        # an unconfirmed change is not kept
        g = {}
        exec(compile(pathlib.Path(a).read_text(), a, "exec"), g)
        shutil.rmtree(V / "seeded" / g["id"], ignore_errors=True)
