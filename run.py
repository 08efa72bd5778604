#!/usr/bin/env python3
"""Runs one check: builds what it needs from /repo's working tree, runs the instrumented workloads in
parallel shards, merges what the monitors observed into evidence/<id>.json and gives the verdict.

  run.py C01                 (VERIF_SEED, VERIF_TIER from the environment)
  run.py --replay FILE       re-runs the recorded history that violated a property

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: inconclusive (the check itself failed).
"""
import json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import stages  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
WORK = os.path.join(VERIF, "work")
REPLAYS = os.path.join(VERIF, "replays")
TRIPLE = "x86_64-unknown-linux-gnu"


class Inconclusive(Exception):
    pass


def base_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_INCREMENTAL",
              "CARGO_PROFILE_DEV_DEBUG", "RUST_BACKTRACE", "ASAN_OPTIONS", "TSAN_OPTIONS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def cargo_cmd(mode, binname, features=None, target=None):
    """(command prefix, environment, path of the binary or None)"""
    e = base_env()
    feat = []
    if features is not None:
        feat = ["--no-default-features"] + (["--features", features] if features else [])
    common = ["--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--bin", binname] + feat
    sub = "" if features is None else "-" + (features.replace(",", "_") or "none")
    if mode == "debug":
        td = os.path.join(TARGET, "n" + sub)
        return (["cargo", "+stable", "build", "--target-dir", td] + common, e, os.path.join(td, "debug", binname))
    if mode == "release":
        td = os.path.join(TARGET, "n" + sub)
        return (["cargo", "+stable", "build", "--release", "--target-dir", td] + common, e, os.path.join(td, "release", binname))
    if mode in ("asan", "asan-debug"):
        td = os.path.join(TARGET, "asan" + sub)
        e["RUSTFLAGS"] = "-Zsanitizer=address -Zub-checks=yes --cfg mon_asan"
        rel = ["--release"] if mode == "asan" else []
        return (["cargo", "+nightly", "build", "--target", TRIPLE, "--target-dir", td] + rel + common, e,
                os.path.join(td, TRIPLE, "release" if rel else "debug", binname))
    if mode == "tsan":
        td = os.path.join(TARGET, "tsan" + sub)
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
        return (["cargo", "+nightly", "build", "-Zbuild-std", "--release", "--target", TRIPLE, "--target-dir", td] + common, e,
                os.path.join(td, TRIPLE, "release", binname))
    if mode in ("miri", "miri-release"):
        td = os.path.join(TARGET, "miri" + sub)
        rel = ["--release"] if mode == "miri-release" else []
        tgt = ["--target", target] if target else []
        return (["cargo", "+nightly", "miri", "run", "--target-dir", td] + tgt + rel + common, e, None)
    raise Inconclusive("unknown mode " + mode)


def run_proc(cmd, env, timeout, cpu=None, mem=None, cwd=None):
    def pre():
        os.setpgid(0, 0)
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, env=env, cwd=cwd or HARNESS, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out.decode("utf8", "replace"), err.decode("utf8", "replace"), True


def build(mode, binname, features=None, target=None):
    cmd, env, path = cargo_cmd(mode, binname, features, target)
    if path is None:
        # miri: build (and check that the interpreter runs) with an empty run
        cmd = cmd + ["--", "--nop"]
        # keep the default isolation; nothing here touches the host
    t0 = time.time()
    rc, out, err, to = run_proc(cmd, env, 840)
    if rc != 0 and path is not None:
        # a crate that does not compile is no verdict about the property
        raise Inconclusive("build failed (%s %s):\n%s" % (mode, binname, err[-3000:]))
    if rc != 0:
        raise Inconclusive("miri build/run failed (%s):\n%s" % (binname, err[-3000:]))
    return cmd[:-1] if path is None else [path], env, time.time() - t0


CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}
REPORTS = [
    ("miri", re.compile(r"error: Undefined Behavior: (.*)")),
    ("miri", re.compile(r"error: memory leaked: (.*)")),
    ("miri", re.compile(r"error: (Data race detected.*)")),
    ("miri", re.compile(r"error: (abnormal termination: .*)")),
    ("asan", re.compile(r"ERROR: (AddressSanitizer: .*)")),
    ("lsan", re.compile(r"ERROR: (LeakSanitizer: .*)")),
    ("tsan", re.compile(r"WARNING: (ThreadSanitizer: .*)")),
    ("ub-checks", re.compile(r"(unsafe precondition\(s\) violated: .*)")),
    ("abort", re.compile(r"(has overflowed its stack)")),
    ("abort", re.compile(r"(memory allocation of \d+ bytes failed)")),
    ("abort", re.compile(r"(panic in a .*)")),
]


def classify(rc, err):
    """None if the process ended normally, else a description of what the instrumentation reported."""
    if rc == 0:
        return None
    for tool, rx in REPORTS:
        m = rx.search(err)
        if m:
            where = ""
            k = err.find("/repo/src", m.end())
            if k >= 0:
                where = " near " + err[k:k + 60].split()[0].rstrip(":,)")
            return "%s: %s%s" % (tool, m.group(1).strip()[:300], where)
    if rc < 0 and -rc in CRASH_SIGNALS:
        return "killed by %s" % signal.Signals(-rc).name
    if rc < 0 and -rc == signal.SIGXCPU:
        return "CPU"
    return "INFRA exit %s: %s" % (rc, err[-800:])


def clip(s):
    """The report and what led to it, without the compiler's warnings"""
    k = re.search(r"error: |ERROR: |WARNING: Thread|panicked at", s)
    if k:
        s = s[max(0, k.start() - 200):]
    return s if len(s) < 14000 else s[:9000] + "\n[...]\n" + s[-5000:]


def read_progress(path):
    try:
        with open(path) as f:
            line = f.readline().split()
        return line[0], int(line[1])
    except Exception:
        return None


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations, self.shards, self.notes = [], [], []
        self.inconclusive = []
        self.known_seen = {}
        self.t0 = time.time()
        self.built = {}
        self.extra = {}
        self.work = os.path.join(WORK, "%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)

    def violation(self, stage, message, **kw):
        v = {"property": self.prop, "stage": stage, "message": message, "seed": self.seed, "tier": self.tier}
        v.update(kw)
        self.violations.append(v)

    # ------------------------------------------------------------------ a sharded workload stage
    def workload(self, st):
        mode, binname = st["mode"], st["bin"]
        shards = st.get("shards", 8)
        timeout = st.get("timeout", 700)
        cmd, env, dt = build(mode, binname, st.get("features"), st.get("target"))
        env = dict(env)
        env["MIRIFLAGS"] = st.get("miriflags", "") + " -Zmiri-disable-isolation"
        env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=%d:detect_stack_use_after_return=1:allocator_may_return_null=1" % st.get("leaks", 0)
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
        env.update(st.get("env", {}))
        miri = mode.startswith("miri")
        name = st.get("name", "%s-%s" % (binname, mode))
        self.notes.append("%s: built in %.1f s" % (name, dt))

        seed, tier, t_start = self.seed, self.tier if "budget" not in st else "quick", time.time()

        def one(i, only=None, seed=None):
            seed = self.seed if seed is None else seed
            out = os.path.join(self.work, "%s.%d.json" % (name, i))
            prog = os.path.join(self.work, "%s.%d.progress" % (name, i))
            a = cmd + ["--"] if miri else list(cmd)
            a = a + ["--prop", self.prop, "--tier", tier, "--seed", str(seed), "--shard", "%d/%d" % (i, shards),
                     "--out", out, "--progress", prog]
            a += ["--scale", str(st.get("scale", 1.0))]
            if "secs" in st:
                a += ["--secs", str(st["secs"])]
            a += st.get("args", [])
            for k in self.known_findings():
                a += ["--known", "|".join([k["id"]] + k["contains"])]
            if only:
                a += ["--config", only[0], "--history", str(only[1])]
            mem = None if mode in ("asan", "asan-debug", "tsan") or miri else (6 << 30)
            e = env
            if miri:
                e = dict(env)
                e["MIRIFLAGS"] += " -Zmiri-seed=%d" % ((seed * 1000 + i) % (1 << 31))
            cpu = st.get("cpu", 400) if only is None else st.get("cpu_one", 60 if not miri else 300)
            if os.path.exists(out):
                os.unlink(out)
            rc, so, se, to = run_proc(a, e, timeout, cpu=cpu, mem=mem)
            return i, rc, so, se, to, out, prog, a

        rounds = 0
        while True:
            with ThreadPoolExecutor(max_workers=8) as ex:
                results = list(ex.map(lambda i: one(i, seed=seed), range(shards)))
            self.judge(st, name, results, lambda i, only: one(i, only, seed=seed))
            rounds += 1
            took = time.time() - t_start
            # further rounds with other seeds, as long as another one fits into the stage's time
            if "budget" not in st or self.violations or self.inconclusive or took + took / rounds > st["budget"]:
                break
            seed = self.seed * 100000 + rounds
        self.notes.append("%s: %d round(s)" % (name, rounds))

    def judge(self, st, name, results, one):
        for i, rc, so, se, to, out, prog, a in results:
            data = None
            if os.path.exists(out):
                try:
                    data = json.load(open(out))
                except Exception:
                    data = None
            c = classify(rc, se) if not to else "TIMEOUT"
            loc = read_progress(prog)
            if c is None and data is None:
                raise Inconclusive("%s shard %d wrote no result: %s" % (name, i, se[-800:]))
            if data is not None:
                data["stage"] = name
                self.shards.append(data)
                for v in data["violations"]:
                    self.violation(name, v["message"], config=v["config"], history=v["history"], log=v["log"], cmd=a)
                for kid, what in data["known"]:
                    self.known_seen[kid] = what
            if c is None:
                continue
            if c in ("CPU", "TIMEOUT"):
                # a history that does not end: confirm on that history alone, with its own CPU limit
                if loc:
                    j, rc2, so2, se2, to2, out2, prog2, a2 = one(i, loc)
                    c2 = classify(rc2, se2) if not to2 else "TIMEOUT"
                    if c2 in ("CPU",):
                        self.violation(name, "history does not terminate (CPU limit %s s; whole shards normally take seconds)" % st.get("cpu_one", 60),
                                       config=loc[0], history=loc[1], cmd=a2, log=[])
                        continue
                    if c2 and not c2.startswith(("INFRA", "TIMEOUT")):
                        self.violation(name, c2, config=loc[0], history=loc[1], cmd=a2, log=[], stderr=clip(se2))
                        continue
                self.inconclusive.append("%s shard %d: %s" % (name, i, c))
            elif c.startswith("INFRA"):
                self.inconclusive.append("%s shard %d: %s" % (name, i, c))
            else:
                self.violation(name, c, config=loc[0] if loc else "?", history=loc[1] if loc else -1, cmd=a, log=[], stderr=clip(se))

    # ------------------------------------------------------------------ verdict
    def known_findings(self):
        out = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            for k in json.load(open(p))["findings"]:
                if k["property"] == self.prop and k.get("status") != "fixed":
                    out.append(k)
        return out

    def evidence(self, level):
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": stages.RULES[self.prop], "samples": []}
        stats, per_stage = {}, {}
        for d in self.shards:
            cov["evaluations"] += d["evaluations"]
            cov["distinct_nontrivial"] += d["nontrivial"]
            for s in d["samples"]:
                if len(cov["samples"]) < 6:
                    cov["samples"].append(s)
            ps = per_stage.setdefault(d["stage"], {"histories": 0, "per_config": {}, "monitor_comparisons": 0})
            ps["histories"] += d["evaluations"]
            for k, v in d["per_config"].items():
                ps["per_config"][k] = ps["per_config"].get(k, 0) + v
            s = d["stats"]
            ps["monitor_comparisons"] += s["comparisons"]
            for grp in ("ops", "insert_kinds", "extra"):
                g = stats.setdefault(grp, {})
                for k, v in s[grp].items():
                    g[k] = max(g.get(k, 0), v) if k.startswith("max_") else g.get(k, 0) + v
            for k in ("max_height", "max_entries"):
                stats[k] = max(stats.get(k, 0), s[k])
            for k in ("distinct_shapes", "joins", "splits"):
                stats[k] = stats.get(k, 0) + s[k]
        cov["observed"] = stats
        cov["stages"] = per_stage
        cov["notes"] = self.notes
        for k, v in self.extra.items():
            if k in ("evaluations", "distinct_nontrivial"):
                cov[k] += v
            elif k == "samples":
                cov[k] = (cov[k] + v)[:8]
            else:
                cov[k] = v
        if not cov["samples"]:
            cov["samples"] = ["(no non-trivial case completed in this run)"]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": stages.ASSUMPTIONS.get(self.prop, []) + ["held on the executions counted here; says nothing about executions not driven"],
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        return cov

    def finish(self):
        known = self.known_findings()
        fresh = []
        for v in self.violations:
            k = next((k for k in known if all(x in v["message"] for x in k["contains"])), None)
            if k is not None:
                self.known_seen[k["id"]] = k["what"]
            else:
                fresh.append(v)
        self.violations = fresh
        cov = self.evidence(stages.LEVELS.get(self.prop, "exploration"))
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for sig in self.inconclusive:
            print("inconclusive: " + sig)
        if fresh:
            os.makedirs(REPLAYS, exist_ok=True)
            for n, v in enumerate(fresh[:5]):
                p = os.path.join(REPLAYS, "%s-%s-%d.json" % (self.prop, self.tier, n))
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                print("# %s [%s] %s #%s: %s" % (self.prop, v["stage"], v.get("config"), v.get("history"), v["message"][:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        if self.inconclusive:
            return 2
        floor = stages.FLOORS.get(self.prop, 1)
        if cov["evaluations"] < 1 or cov["distinct_nontrivial"] < floor:
            print("inconclusive: observed too little (%s evaluations, %s distinct non-trivial)" % (cov["evaluations"], cov["distinct_nontrivial"]))
            return 2
        print("%s held on %d executions (%d distinct non-trivial), %.1f s" % (self.prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - self.t0))
        return 0


def replay(path):
    v = json.load(open(path))
    cmd = list(v.get("cmd", []))
    if not cmd:
        print(json.dumps(v, indent=1))
        return 0
    st = next((s for s in stages.stages_for(v["property"], v["tier"]) if s.get("name", "%s-%s" % (s.get("bin"), s.get("mode"))) == v["stage"]), None)
    if st:
        build(st["mode"], st["bin"], st.get("features"), st.get("target"))
    cmd = [c for c in cmd]
    for flag in ("--out", "--progress", "--config", "--history"):
        if flag in cmd:
            i = cmd.index(flag)
            del cmd[i:i + 2]
    cmd += ["--config", str(v.get("config")), "--history", str(v.get("history"))]
    e = base_env()
    e["MON_VERBOSE"] = "1"
    print("+ " + " ".join(cmd))
    return subprocess.call(cmd, env=e, cwd=HARNESS)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--setup":
        return setup()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    try:
        for st in stages.stages_for(prop, tier):
            kind = st.get("kind", "workload")
            if kind == "workload":
                c.workload(st)
            else:
                stages.CUSTOM[kind](c, st)
            if c.violations and not st.get("always_continue"):
                break
    except Inconclusive as e:
        c.inconclusive.append(str(e))
    return c.finish()


def setup():
    """Checks the toolchain and warms what every check needs. Nothing here is required for correctness."""
    rc = 0
    for mode, b in stages.SETUP:
        try:
            _, _, dt = build(mode, b)
            print("built %s (%s) in %.1f s" % (b, mode, dt))
        except Inconclusive as e:
            print(str(e))
            rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
