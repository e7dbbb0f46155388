"""Builds the engine of /repo (from its working tree) and a harness, per sanitizer configuration."""
import hashlib, os, pathlib, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
BUILD = VERIF / "build"
HARNESS = VERIF / "harness"

CXX = "/usr/bin/clang++-18"
COMMON = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-Wno-everything"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fsanitize-address-use-after-scope"],
    "plain": ["-O2"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "fuzz": ["-O1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all"],
}
COV = ["-fsanitize-coverage=trace-pc-guard", f"-fsanitize-coverage-allowlist={VERIF}/tools/cov.allow"]


class BuildError(Exception):
    pass


def engine_sources():
    root = REPO / "PTN_Engine"
    return sorted(f for f in root.rglob("*.cpp") if "build" not in f.relative_to(root).parts)


def include_dirs():
    r = REPO
    dirs = [r, r / "PTN_Engine", r / "PTN_Engine/include", r / "PTN_Engine/ImportExport",
            r / "PTN_Engine/ImportExport/include", r / "PTN_Engine/ImportExport/XML/src"]
    return [f"-I{d}" for d in dirs]


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(paths):
        h.update(str(f).encode())
        h.update(f.read_bytes())
    return h.hexdigest()[:16]


def run(cmd):
    p = subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: " + " ".join(map(str, cmd)) + "\n" + p.stdout[-6000:])


def build(harness_sources, configs, log=lambda *_: None):
    """harness_sources: file names below harness/. Returns {config: binary path}."""
    root = REPO / "PTN_Engine"
    eng_files = [f for f in root.rglob("*") if f.suffix in (".h", ".cpp", ".hpp")]
    eng_src = engine_sources()
    if not eng_src:
        raise BuildError("no engine sources found")
    har_headers = list(HARNESS.glob("*.h"))
    result, jobs, finals = {}, [], []
    for c in configs:
        flags = COMMON + SAN[c]
        ekey = digest(eng_files, (flags, COV, 1))
        edir = BUILD / c / f"engine-{ekey}"
        eobjs = []
        for s in eng_src:
            o = edir / ("_".join(s.relative_to(root).parts) + ".o")
            eobjs.append(o)
            if not o.exists():
                jobs.append((s, o, flags + (COV if c != "fuzz" else []) + include_dirs()))
        hobjs = []
        for name in harness_sources:
            s = HARNESS / name
            hf = flags if name != "noise.cpp" else COMMON + ["-O2"]
            hkey = digest(har_headers + [s] + eng_files, hf)
            o = BUILD / c / "harness" / f"{s.stem}-{hkey}.o"
            hobjs.append(o)
            if not o.exists():
                jobs.append((s, o, hf + include_dirs()))
        bkey = digest([], (ekey, [str(o) for o in hobjs]))
        binary = BUILD / c / f"bin-{bkey}"
        result[c] = binary
        if not binary.exists():
            link = [CXX] + [f for f in flags if not f.startswith("-I")] + eobjs + hobjs + ["-lpugixml", "-lpthread"]
            if c == "fuzz":
                link += ["-fsanitize=fuzzer"]
            finals.append((link, binary))
    # biggest first
    jobs.sort(key=lambda j: -j[0].stat().st_size)

    def compile_one(j):
        s, o, fl = j
        o.parent.mkdir(parents=True, exist_ok=True)
        tmp = o.with_suffix(f".{os.getpid()}.tmp.o")
        run([CXX] + fl + ["-c", s, "-o", tmp])
        os.replace(tmp, o)

    def link_one(f):
        link, binary = f
        tmp = str(binary) + f".{os.getpid()}.tmp"
        run(link + ["-o", tmp])
        os.replace(tmp, binary)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_one, jobs))
        list(ex.map(link_one, finals))
    prune()
    return result


def prune(keep=6):
    """Drop the oldest engine builds and binaries, so that /verif/build stays small."""
    for c in BUILD.glob("*"):
        for pat, k in (("engine-*", keep), ("bin-*", 60)):
            items = sorted(c.glob(pat), key=lambda p: p.stat().st_mtime, reverse=True)
            for old in items[k:]:
                if time.time() - old.stat().st_mtime < 3600:
                    continue
                if old.is_dir():
                    shutil.rmtree(old, ignore_errors=True)
                else:
                    old.unlink(missing_ok=True)
        objs = sorted((c / "harness").glob("*.o"), key=lambda p: p.stat().st_mtime, reverse=True)
        for old in objs[200:]:
            old.unlink(missing_ok=True)


if __name__ == "__main__":
    # warm the engine builds and the common harness objects
    t = time.time()
    try:
        build_args = sys.argv[1:] or ["asan", "tsan"]
        from checks import CHECKS
        for pid, spec in CHECKS.items():
            for run_spec in spec["runs"]:
                build(["vh.cpp", "noise.cpp", *run_spec["src"]], [run_spec["san"]])
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(f"built in {time.time()-t:.0f} s")
