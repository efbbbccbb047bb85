"""Shared plumbing of the checks: build a harness against /repo, run it, hand the
observations to TLC, report.  All judging is done by TLC on the modules in /verif/spec."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(WORK, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class ToolError(Exception):
    pass


def log(msg):
    print(f"[{time.time() - T0:6.1f}s] {msg}", flush=True)


def thorough():
    return TIER == "thorough"


def cargo_env():
    env = dict(os.environ)
    # the pinned toolchain and offline mode the repository is built with
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    for kv in r.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode(errors="replace").split("=", 1)
            if k not in ("PWD", "OLDPWD", "SHLVL", "_", "CARGO_TARGET_DIR"):
                env[k] = v
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = TARGET
    env.pop("RUSTFLAGS", None)
    return env


def cargo_build(crate_dir, profile_args=()):
    """Build the harness crate; returns the path of its binary."""
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "-q", *profile_args], cwd=crate_dir, env=cargo_env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stderr[-6000:])
        raise ToolError(f"cargo build failed in {crate_dir}")
    name = re.search(r'^name = "(.*)"', open(os.path.join(crate_dir, "Cargo.toml")).read(), re.M).group(1)
    log(f"built {name} in {time.time() - t:.1f}s")
    return os.path.join(TARGET, "debug", name)


def scratch(pid):
    d = os.path.join(WORK, "run", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run_driver(cmd, dead, stall=20.0, env=None):
    """Run a driver that prints `#id` before each case and one JSON line after it.
    cmd(from_id) gives the command line.  A case during which the process dies or hangs
    is recorded as dead(id, how) and the driver is restarted behind it."""
    out, start, deaths = [], 0, 0
    while True:
        p = subprocess.Popen(cmd(start), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        state = {"cur": None, "last": time.time(), "hung": False}

        def watch():
            while p.poll() is None:
                time.sleep(0.5)
                if time.time() - state["last"] > stall:
                    state["hung"] = True
                    p.kill()
                    return
        w = threading.Thread(target=watch, daemon=True)
        w.start()
        for line in p.stdout:
            state["last"] = time.time()
            if line.startswith(b"#"):
                state["cur"] = int(line[1:])
            elif line.strip():
                out.append(json.loads(line))
                state["cur"] = None
        rc = p.wait()
        w.join()
        if state["cur"] is None:
            if rc != 0:
                raise ToolError(f"driver exited with {rc} between cases")
            return out
        how = "timeout" if state["hung"] else "abort"
        log(f"driver {how} in case {state['cur']}")
        out.append(dead(state["cur"], how))
        start = state["cur"] + 1
        deaths += 1
        if deaths >= 8:
            # enough evidence; the remaining cases are not run
            return out


def write_ndjson(path, records):
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, ensure_ascii=False, separators=(",", ":")) + "\n")


class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.violated = False
        self.mismatches = []
        self.output = ""


# exit codes of TLC when an expression has no value
EVAL_FAILED = (75, 76)


def tlc(module, cfg, env, workers=8, timeout=800, extra=(), heap="10g", observed=False):
    t = time.time()
    meta = tempfile.mkdtemp(prefix="tlc", dir=WORK)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet"
           if False else "-Dfile.encoding=UTF-8", "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC did not finish {module} within {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", errors="replace")
    r = TlcResult()
    r.output = out
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        r.states = int(m[-1][0].replace(",", ""))
        r.distinct = int(m[-1][1].replace(",", ""))
    r.mismatches = parse_mismatches(out)
    if p.returncode == 0 and "Model checking completed. No error has been found" in out:
        pass
    elif observed and p.returncode in EVAL_FAILED:
        # an observation for which the specification has no value at all: nothing it allows
        r.violated = True
        if not r.mismatches:
            r.mismatches = [(None, ["observation outside the specification"], out[-3000:])]
    elif p.returncode in (12, 13) or (p.returncode != 0 and ("is violated" in out or r.mismatches)):
        # (an observation far outside of what the specification knows can also end TLC; what it printed before stands)
        r.violated = True
    else:
        sys.stdout.write(out[-5000:])
        raise ToolError(f"TLC failed on {module} (exit {p.returncode})")
    log(f"TLC {module}/{cfg}: {r.distinct} states, {'VIOLATED' if r.violated else 'ok'} in {time.time() - t:.1f}s")
    return r


def parse_mismatches(out):
    """PrintT(<<"MISMATCH", id, labels, json>>) lines (TLC may wrap them)."""
    res = []
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(-?\d+),\s*(\{[^}]*\}),\s*("(?:[^"\\]|\\.)*")\s*>>', out):
        labels = re.findall(r'"([^"]*)"', m.group(2))
        try:
            detail = json.loads(json.loads(m.group(3)))
        except Exception:
            detail = m.group(3)
        res.append((int(m.group(1)), labels, detail))
    return res


class Check:
    """Collects the stages of one property's check and reports."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.dir = scratch(pid)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.assumptions = [], [], []
        self.cov = {}
        self.stages = []

    def add_tlc(self, r, traces=0, stage=None):
        self.states += r.distinct
        self.transitions += max(0, r.states)
        self.traces += traces
        if stage:
            self.stages.append({"stage": stage, "states": r.distinct, "traces": traces})

    def violation(self, what, replay):
        path = os.path.join(WORK, "replay", self.pid)
        os.makedirs(path, exist_ok=True)
        path = os.path.join(path, f"{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, **replay}, f, indent=1, ensure_ascii=False, default=str)
        self.violations.append((what, path))

    def judge(self, module, cfg, obs, env=None, stage=None, timeout=800, traces=None, describe=None):
        """Write observations, let TLC judge them, record violations."""
        stage = stage or module
        path = os.path.join(self.dir, f"{stage}.ndjson")
        write_ndjson(path, obs)
        r = tlc(module, cfg, {"OBS": path, "PID": self.pid, **(env or {})}, timeout=timeout, observed=True)
        self.add_tlc(r, len(obs) if traces is None else traces, stage)
        if r.violated:
            byid = {o["id"]: o for o in obs}
            if not r.mismatches:
                self.violation(f"{stage}: invariant violated", {"tlc": r.output[-4000:]})
            for cid, labels, detail in r.mismatches[:5]:
                o = byid.get(cid, {})
                self.violation(f"{stage} case {cid}: {','.join(labels)}" + (f" [{describe(o)}]" if describe and o else ""),
                               {"stage": stage, "labels": labels, "observation": o, "specification": detail})
        elif r.mismatches:
            raise ToolError(f"{module}: mismatch printed but no violation: {r.mismatches[:2]}")
        return r

    def finish(self, known=()):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:6], "stages": self.stages}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": "thorough" if thorough() else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if self.violations:
            for what, path in self.violations[:5]:
                print(f"  {what}")
                print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        log(f"{self.pid}: held on everything explored ({self.traces} traces, {self.states} states)")
        return 0


def known_findings(pid):
    """Lines `known: property=<id> key=<key> <text>` of known_findings.txt, by key."""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res
