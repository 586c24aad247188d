#!/usr/bin/env python3
"""check.py ID: builds /repo's working tree with the monitors of one property,
runs the workload in parallel shards, and reports.  Exit 0 held, 1 violated
(with a VIOLATION line), 2 inconclusive or broken check."""
import json, os, re, signal, shutil, struct, subprocess, sys, tempfile, threading, time, queue
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build as B
from props import PROPS, EXES

V = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()
DEADLINE = {"quick": 780, "thorough": 24 * 3600}
CASE_TIMEOUT, CASE_TIMEOUT2 = 60, 200
# for mutation campaigns only: run a fraction of the cases, stop at the first violation
SCALE = float(os.environ.get("ASV_SCALE", "1"))

ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:quarantine_size_mb=32:max_allocation_size_mb=8192",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1",
    "MALLOC_PERTURB_": "165",
}


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


def known():
    """lines `known: property=<id> key=<key, to end of line>`"""
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(.*?)(?: -- (.*))?$", l.rstrip("\n"))
            if m:
                out[(m.group(1), m.group(2))] = m.group(3) or ""
    return out


def san_key(log):
    """a short stable description of a sanitizer report or signal"""
    m = re.search(r"runtime error: (.*)", log)
    kind = None
    if m:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:80]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", log)
    if m and not kind:
        kind = "asan:" + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", log)
    if m:
        kind = "tsan:" + m.group(1)
    m = re.search(r"terminate called.*", log)
    if m:
        kind = "terminate:" + re.sub(r"\s+", " ", m.group(0))[:80]
    fr = ""
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(\S[^\n]*?) (/\S*/src/[\w.]+)", log):
        fr = m.group(1)[:60] + " " + os.path.basename(m.group(2))
        break
    return (kind or "crash") + (" at " + fr if fr else "")


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = PROPS[pid]
        self.dir = tempfile.mkdtemp(prefix="asv-%s-" % pid)
        self.counts, self.hashes, self.samples = {}, set(), []
        self.evals = 0
        self.viols = {}          # key -> (case, detail, exe, variant)
        self.nviol = 0
        self.err = []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.procs = set()
        self.progs = {}          # build variant -> where the programs under test are

    def launch(self, exe, variant, a, b, tag, timeout):
        out = os.path.join(self.dir, tag + ".out"); prog = os.path.join(self.dir, tag + ".prog"); log = os.path.join(self.dir, tag + ".log")
        cmd = [exe, "--prop", self.pid, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--out", out, "--progress", prog,
               "--timeout", str(timeout)]
        if self.tier == "thorough":
            cmd.append("--thorough")
        env = dict(os.environ); env.update(ENV); env["ASV_REPO"] = B.REPO
        env["ASV_SCRATCH"] = self.dir
        env.update(self.progs.get(variant, {}))
        if variant == "asan":
            env.pop("MALLOC_PERTURB_", None)
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=self.dir, start_new_session=True)
            with self.lock:
                self.procs.add(p)
            rc = p.wait()
            with self.lock:
                self.procs.discard(p)
            try:
                os.killpg(p.pid, signal.SIGKILL)      # anything the case left behind
            except OSError:
                pass
        idx = None
        try:
            idx = struct.unpack("q", open(prog, "rb").read(8))[0]
        except Exception:
            pass
        with open(log, "rb") as f:
            f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 200000)); lg = f.read().decode("utf-8", "replace")
        self.collect(out, exe, variant)
        for x in (out, prog, log):
            try: os.unlink(x)
            except OSError: pass
        return rc, idx, lg

    def collect(self, out, exe, variant):
        if not os.path.exists(out):
            return
        with open(out, encoding="utf-8", errors="replace") as f:
            for l in f:
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                with self.lock:
                    if d["t"] == "viol":
                        self.add_viol(d["key"], d["case"], d["detail"], exe, variant)
                    elif d["t"] == "stats":
                        self.evals += d["evals"]
                        for k, v in d["counts"].items():
                            self.counts[k] = max(self.counts.get(k, 0), v) if k.startswith("max_") else self.counts.get(k, 0) + v
                        h = d["hashes"]
                        if len(self.hashes) < 5000000:
                            self.hashes.update(h[i:i + 16] for i in range(0, len(h), 16))
                        if len(self.samples) < 6:
                            self.samples += [s for s in d["samples"] if s][:2]

    def add_viol(self, key, case, detail, exe, variant):
        self.nviol += 1
        self.viols.setdefault(key, (case, detail, exe, variant))
        if len(self.unlisted()) and self.nviol > (40 if SCALE == 1 else 0):
            self.stop.set()

    def unlisted(self):
        k = known()
        return [x for x in self.viols if (self.pid, x) not in k]

    def chunk(self, exe, variant, a, b, n):
        crashes = 0
        while a < b and not self.stop.is_set():
            rc, idx, log = self.launch(exe, variant, a, b, "%s-%d-%d" % (variant, n, a), CASE_TIMEOUT)
            if rc == 0 and idx == -2:
                return
            if self.stop.is_set():
                return
            if rc == 97 or idx is None or idx == -2:
                with self.lock: self.err.append("harness failure rc=%s: %s" % (rc, log[-600:]))
                self.stop.set(); return
            if rc == -signal.SIGKILL:
                # out of memory or killed from outside: try this case alone once
                rc2, idx2, log2 = self.launch(exe, variant, max(idx, 0), max(idx, 0) + 1, "k-%s-%d" % (variant, max(idx, 0)), CASE_TIMEOUT2)
                if rc2 == 0:
                    a = max(idx, 0) + 1; continue
                if rc2 == -signal.SIGKILL:
                    with self.lock: self.err.append("case %s was killed twice" % idx)
                    self.stop.set(); return
                rc, idx, log = rc2, idx2, log2
            if idx == -1:
                rc2, idx2, log2 = self.launch(exe, variant, a, a + 1, "i-%s-%d" % (variant, a), CASE_TIMEOUT2)
                if rc2 == 0: continue
                with self.lock:
                    self.add_viol("%s during the first calls" % san_key(log2), -1, log2[-6000:], exe, variant)
                self.stop.set(); return
            if rc == -signal.SIGALRM:
                if any(k.startswith("no answer") for k in self.viols):
                    self.stop.set(); return
                rc2, idx2, log2 = self.launch(exe, variant, idx, idx + 1, "h-%s-%d" % (variant, idx), CASE_TIMEOUT2)
                with self.lock:
                    if rc2 == 0:
                        self.counts["slow_cases"] = self.counts.get("slow_cases", 0) + 1
                    elif rc2 == -signal.SIGALRM:
                        self.add_viol("no answer within %d s" % CASE_TIMEOUT2, idx, "the call did not return", exe, variant)
                        self.stop.set()
                    else:
                        self.add_viol(san_key(log2), idx, log2[-6000:], exe, variant)
            else:
                with self.lock:
                    self.add_viol(san_key(log), idx, "exit %s\n" % rc + log[-8000:], exe, variant)
                crashes += 1
                if crashes >= 4:
                    self.stop.set()
            a = idx + 1

    def run(self):
        passes = self.cfg[self.tier]
        exes = {}
        for variant, exe, n in passes:
            e = EXES[exe]
            try:
                exes[(variant, exe)] = B.build(exe, e["harness"], variant=variant, repo_only=e.get("repo_only"), pg=e.get("pg", False),
                                               extra_flags=e.get("extra_flags", ()), link=e.get("link", ()), with_c=e.get("with_c", False))
                if e.get("programs"):
                    self.progs[variant] = B.programs(variant)
            except B.BuildError as x:
                die("build: %s" % x)
        self.tbuild = time.time() - T0
        q = queue.Queue()
        for variant, exe, n in passes:
            n = max(1, int(n * SCALE))
            workers = self.cfg.get("workers", 8)
            k = self.cfg.get("chunks", 64 if self.tier == "thorough" else 24)
            k = max(1, min(k, n))
            for j in range(k):
                q.put((exes[(variant, exe)], variant, n * j // k, n * (j + 1) // k, j))

        def work():
            while not self.stop.is_set():
                try:
                    c = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    self.chunk(*c)
                except Exception as x:
                    with self.lock: self.err.append("driver: %r" % x)
                    self.stop.set()
        ths = [threading.Thread(target=work) for _ in range(workers)]
        for t in ths: t.start()
        timed_out = False
        while any(t.is_alive() for t in ths):
            time.sleep(0.05)
            if time.time() - T0 > DEADLINE[self.tier]:
                timed_out = True; self.stop.set()
            if self.stop.is_set():
                with self.lock:
                    for p in list(self.procs):
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except OSError: pass
        for t in ths: t.join()
        self.finish(timed_out)

    def finish(self, timed_out):
        kn = known()
        bad = self.unlisted()
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.cfg["level"],
            "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.hashes), "rule": self.cfg["rule"],
                         "samples": self.samples[:6], "observed": dict(sorted(self.counts.items())),
                         "passes": [{"build": v, "program": e, "cases": n} for v, e, n in self.cfg[self.tier]]},
            "assumptions": [self.cfg["level_note"]],
            "wall_s": round(time.time() - T0, 2), "violations": len(self.viols),
        }
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for k in self.viols:
            if (self.pid, k) in kn:
                print("KNOWN-FINDING: property=%s %s %s" % (self.pid, k, kn[(self.pid, k)]))
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.0f s (build %.0f s)" %
              (self.pid, self.tier, self.seed, self.evals, len(self.hashes), time.time() - T0, self.tbuild))
        print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(self.counts.items()) if not kv[0].startswith("class_")))
        if bad:
            rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            for i, k in enumerate(bad[:5]):
                case, detail, exe, variant = self.viols[k]
                rp = os.path.join(rd, "%s-%d.json" % (self.pid, i))
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "key": k, "seed": self.seed, "case": case, "build": variant, "detail": detail,
                               "rerun": "VERIF_SEED=%d ./check.py %s --tier %s --only %s --build %s" % (self.seed, self.pid, self.tier, case, variant)},
                              f, indent=1, ensure_ascii=True)
                print("  %s: case %s: %s" % (k, case, detail[:600].encode("ascii", "backslashreplace").decode()))
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.exit(1)
        if self.err:
            die("; ".join(self.err[:3]))
        if timed_out:
            die("inconclusive: not finished in time")
        for k, v in self.cfg["need"].items():
            if SCALE == 1 and self.counts.get(k, 0) < v:
                die("inconclusive: observed only %d %s" % (self.counts.get(k, 0), k))
        sys.exit(0)


def main():
    a = sys.argv[1:]
    if not a or a[0] not in PROPS:
        die("usage: check.py ID [--tier quick|thorough] [--only CASE] [--build VARIANT]")
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None; var = None
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--only": only = int(a[i + 1])
        if x == "--build": var = a[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Run(a[0], tier, seed)
    try:
        if only is not None:
            v, e, n = [p for p in r.cfg[tier] if not var or p[0] == var][0]
            ex = EXES[e]
            exe = B.build(e, ex["harness"], variant=v, repo_only=ex.get("repo_only"), pg=ex.get("pg", False),
                          extra_flags=ex.get("extra_flags", ()), link=ex.get("link", ()), with_c=ex.get("with_c", False))
            if ex.get("programs"):
                r.progs[v] = B.programs(v)
            rc, idx, log = r.launch(exe, v, only, only + 1, "only", CASE_TIMEOUT2)
            print(log)
            for k, x in r.viols.items():
                print(k, x[1])
            sys.exit(1 if r.viols or rc else 0)
        r.run()
    finally:
        shutil.rmtree(r.dir, ignore_errors=True)


main()
