#!/usr/bin/env python3
"""run_check.py <property id>: build, run the workloads, decide, write the evidence."""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import build as B
from checks import CHECKS

VERIF = B.VERIF
EVID = VERIF / "evidence"
FINDINGS = VERIF / "known_findings.txt"
WORKERS = 8
ENV_SAN = {
    "ASAN_OPTIONS": "exitcode=97:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=1:second_deadlock_stack=1:history_size=4:detect_deadlocks=1:suppressions=" + str(VERIF / "tools/tsan.supp"),
}


def load_findings():
    known = []
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            m = re.match(r"known: property=(\S+) match=/(.*?)/ what=(.*)$", line)
            if m:
                known.append(dict(property=m[1], re=re.compile(m[2], re.S), what=m[3]))
    return known


def san_summary(err):
    pats = [r"ERROR: AddressSanitizer: ([\w-]+)", r"WARNING: ThreadSanitizer: ([\w -]+)", r"runtime error: (.*)",
            r"(terminate called.*)", r"(Assertion .* failed)", r"ERROR: (LeakSanitizer.*)"]
    for pat in pats:
        m = re.search(pat, err)
        if m:
            frames = re.findall(r"#\d+ .*? in (.*?) (/repo/\S+)", err) or re.findall(r"#\d+ (.*?) (/repo/\S+)", err)
            fr = "; ".join(f"{a} {b}" for a, b in frames[:4])
            return m[0].strip()[:200] + ("  at " + fr if fr else "")
    return ""


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = CHECKS[pid]
        self.t0 = time.time()
        self.counts, self.distinct, self.samples = {}, set(), []
        self.edges = {}
        self.noise = 0
        self.inconclusive, self.known_hits, self.violations, self.errors = [], {}, [], []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.known = load_findings()
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"vh-{pid}-"))
        self.procs = set()

    def launch(self, binary, args, out, err, timeout):
        env = dict(os.environ)
        env.update(ENV_SAN)
        env.update(self.spec.get("env", {}))
        with open(err, "wb") as ef:
            p = subprocess.Popen([str(binary), *map(str, args), "--out", str(out)], stdout=subprocess.DEVNULL,
                                 stderr=ef, env=env, cwd=self.tmp)
        with self.lock:
            self.procs.add(p)
        try:
            end = time.time() + timeout
            while True:
                try:
                    return p.wait(1)
                except subprocess.TimeoutExpired:
                    if self.stop.is_set() or time.time() > end:
                        p.kill()
                        p.wait()
                        return "stopped" if self.stop.is_set() else "overtime"
        finally:
            with self.lock:
                self.procs.discard(p)

    @staticmethod
    def read(out):
        try:
            return json.loads(pathlib.Path(out).read_text())
        except Exception:
            return None

    @staticmethod
    def status(out):
        try:
            b = pathlib.Path(str(out) + ".status").read_bytes()
            import struct
            idx, seed, done = struct.unpack_from("QQQ", b)
            text = b[24:].split(b"\0")[0].decode("utf-8", "replace")
            return dict(case=idx, seed=seed, done=done, text=text)
        except Exception:
            return dict(case=0, seed=0, done=0, text="")

    def merge(self, res, san):
        with self.lock:
            for k, v in (res.get("counts") or {}).items():
                self.counts[k] = self.counts.get(k, 0) + v
            self.distinct.update(res.get("distinct") or [])
            for s in res.get("samples") or []:
                if len(self.samples) < 8:
                    self.samples.append(s)
            e = self.edges.setdefault(san, [0, set()])
            e[0] = max(e[0], res.get("edges_total", 0))
            e[1].update(res.get("edges_hit") or [])
            self.noise += res.get("noise_injected", 0)

    def judge(self, run, kind, message, st, err):
        """A violation was observed: known finding or not?"""
        text = f"{kind}: {message}\n{st.get('text','')}\n{err[-4000:]}"
        for k in self.known:
            if k["property"] == self.pid and k["re"].search(text):
                with self.lock:
                    self.known_hits[k["what"]] = self.known_hits.get(k["what"], 0) + 1
                return False
        v = dict(property=self.pid, kind=kind, message=message, workload=st.get("text", ""), case=st.get("case"),
                 case_seed=st.get("seed"), sanitizer=run["san"], sources=run["src"], stderr=err[-12000:])
        with self.lock:
            self.violations.append(v)
        self.stop.set()
        return True

    def worker(self, run, binary, w, total, budget):
        done = 0
        mine = len(range(w, total, WORKERS))
        attempt = 0
        while done < mine and not self.stop.is_set():
            attempt += 1
            if attempt > 40:
                with self.lock:
                    self.errors.append("too many restarts of a worker")
                return
            tag = f"{run['san']}-{'-'.join(run['src'])}-{w}-{attempt}"
            out, err = self.tmp / f"{tag}.json", self.tmp / f"{tag}.err"
            wtmp = self.tmp / f"{tag}.d"
            wtmp.mkdir()
            args = ["--seed", self.seed, "--first", w + done * WORKERS, "--stride", WORKERS, "--count", mine - done,
                    "--budget", budget, "--tmp", wtmp] + (["--thorough"] if self.tier == "thorough" else []) + run.get("args", [])
            rc = self.launch(binary, args, out, err, budget + 400)
            shutil.rmtree(wtmp, ignore_errors=True)
            if rc == "stopped":
                return
            etext = err.read_text("utf-8", "replace") if err.exists() else ""
            res = self.read(out)
            st = res if res else self.status(out)
            if res:
                self.merge(res, run["san"])
            if rc == 0 and res and res["status"] == "ok":
                return
            if rc == 3 and res:
                if self.judge(run, res["kind"], res["message"], st, etext):
                    return
            elif rc == 4 and res:
                if self.judge(run, "deadlock", res["message"], st, etext):
                    return
            elif rc == 6:
                with self.lock:
                    self.errors.append(res["message"] if res else etext[-500:])
                return
            elif rc in (5, "overtime", -9):
                # wall clock: inconclusive unless it happens again
                again = self.confirm(run, binary, st)
                if again:
                    if self.judge(run, "hang", f"no progress within the wall-clock backstop, again on re-run ({again})", st, etext):
                        return
                else:
                    with self.lock:
                        self.inconclusive.append(f"case {st.get('case')} exceeded the wall clock once (exit {rc})")
                    done += 1
                    if res is None:
                        with self.lock:
                            self.counts["cases"] = self.counts.get("cases", 0) + st.get("done", 0)
                    done += st.get("done", 0)
                    continue
            else:
                summ = san_summary(etext) or f"process ended with {rc}"
                if self.judge(run, "crash", summ, st, etext):
                    return
            done += st.get("done", 0) + 1

    def confirm(self, run, binary, st):
        for i in range(1):
            out, err = self.tmp / f"confirm-{time.time_ns()}.json", self.tmp / "confirm.err"
            wtmp = self.tmp / f"confirm-{time.time_ns()}.d"
            wtmp.mkdir()
            rc = self.launch(binary, ["--seed", self.seed, "--first", st.get("case", 0), "--stride", 1, "--count", 1,
                                      "--livelock", 90, "--tmp", wtmp] + (["--thorough"] if self.tier == "thorough" else []) + run.get("args", []), out, err, 200)
            if rc in (5, 4, "overtime"):
                return f"exit {rc}"
            if rc in (3, 97, 98):
                return f"exit {rc}: {san_summary(err.read_text('utf-8','replace'))}"
        return None

    def go(self):
        spec = self.spec
        tier = self.tier
        for run in spec["runs"]:
            if tier == "quick" and run.get("thorough_only"):
                continue
            binary = B.build(["vh.cpp", "noise.cpp", *run["src"]], [run["san"]])[run["san"]]
            run["_bin"] = binary
        for run in spec["runs"]:
            if "_bin" not in run or self.stop.is_set():
                continue
            total, budget = run[tier]
            ths = [threading.Thread(target=self.worker, args=(run, run["_bin"], w, total, budget)) for w in range(WORKERS)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if self.violations:
                break

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        EVID.mkdir(exist_ok=True)
        evals = self.counts.get("cases", 0)
        cov = dict(evaluations=evals, distinct_nontrivial=len(self.distinct), rule=self.spec["rule"], samples=self.samples,
                   observed={k: v for k, v in sorted(self.counts.items()) if k != "cases"},
                   schedule_perturbations_injected=self.noise,
                   engine_edges={s: dict(instrumented=e[0], reached=len(e[1])) for s, e in self.edges.items()},
                   sanitizers=sorted({r["san"] for r in self.spec["runs"]}), inconclusive=self.inconclusive,
                   known_findings_seen=self.known_hits)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=self.spec.get("assumptions", []) + ["holds on the executions observed, nothing more",
                      "user actions and conditions as generated by the harness"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        (EVID / f"{self.pid}.json").write_text(json.dumps(ev, indent=1))
        for k in self.known:
            if k["property"] == self.pid:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violations:
            v = self.violations[0]
            rdir = EVID / "replays"
            rdir.mkdir(exist_ok=True)
            v["rerun"] = f"cd /verif && python3 tools/run_check.py {self.pid} --case-seed {v['case_seed']} --san {v['sanitizer']}"
            path = rdir / f"{self.pid}-{v['case_seed']}.json"
            path.write_text(json.dumps(v, indent=1))
            print(f"{v['kind']}: {v['message']}")
            print(f"  workload: {v['workload'][:1500]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if self.errors:
            print("ERROR: " + "; ".join(self.errors[:5]))
            return 2
        need = self.spec.get("min_distinct", 2)
        if evals == 0 or len(self.distinct) < need:
            print(f"ERROR: too little was observed ({evals} cases, {len(self.distinct)} distinct non-trivial)")
            return 2
        for name in self.spec.get("must_observe", []):
            if not self.counts.get(name):
                print(f"ERROR: the workload never produced '{name}'")
                return 2
        print(f"OK property={self.pid}: {evals} cases, {len(self.distinct)} distinct non-trivial, "
              + ", ".join(f"{k}={v}" for k, v in sorted(self.counts.items()) if k != "cases")
              + (f", {len(self.inconclusive)} inconclusive" if self.inconclusive else "")
              + f", {time.time()-self.t0:.0f} s")
        return 0


def replay(pid, argv):
    opts = dict(zip(argv[::2], argv[1::2]))
    spec = CHECKS[pid]
    rc = 0
    for run in spec["runs"]:
        if opts.get("--san", run["san"]) != run["san"]:
            continue
        binary = B.build(["vh.cpp", "noise.cpp", *run["src"]], [run["san"]])[run["san"]]
        env = dict(os.environ); env.update(ENV_SAN); env.update(spec.get("env", {}))
        tmp = tempfile.mkdtemp(prefix="vh-replay-")
        for i in range(int(opts.get("--times", "20"))):
            rc = subprocess.run([str(binary), "--case-seed", opts["--case-seed"], "--count", "1", "--tmp", tmp, *run.get("args", [])], env=env).returncode
            if rc:
                break
        shutil.rmtree(tmp, ignore_errors=True)
        if rc:
            break
    return rc


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        return replay(pid, sys.argv[2:])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Runner(pid, tier, seed)
    try:
        r.go()
    except B.BuildError as e:
        print("BUILD ERROR:", e)
        shutil.rmtree(r.tmp, ignore_errors=True)
        return 2
    return r.finish()


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
