"""Shared machinery of the checks: harness process pool, evidence, violations."""
import json, os, subprocess, sys, threading, queue, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get("VERIF_TARGET", os.path.join(ROOT, "harness", "target"))
BIN = os.path.join(TARGET, "debug", "ifc_harness")


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", HOME="/root",
               RUSTFLAGS="--cfg ifc_rs_verif")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        log = p.stdout.decode("utf-8", "replace")
        i = log.find("\nerror")
        raise ToolError("harness does not build:\n" + log[max(i, 0):][:2000])
    return time.time() - t


class Worker:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, RUST_BACKTRACE="0", TZ="UTC")
        self.p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def call(self, req, timeout):
        if self.p is None or self.p.poll() is not None:
            self.start()
        killed = []
        timer = threading.Timer(timeout, lambda: (killed.append(1), self.p.kill()))
        timer.start()
        try:
            try:
                self.p.stdin.write(json.dumps(req).encode() + b"\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except BrokenPipeError:
                line = b""
        finally:
            timer.cancel()
        if not line.endswith(b"\n"):
            self.p.kill()
            self.p.wait()
            rc = self.p.returncode
            self.p = None
            return {"r": "timeout" if killed else "crash", "msg": "exit status %s" % rc}
        return json.loads(line)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = self.evals = 0
        self.violations = []
        self.samples = []
        self.cover = {}
        self.models = []
        self.assumptions = []
        self.distinct = set()
        self.known = load_known(prop)
        self.known_hit = {}
        self.t0 = time.time()
        self.n = 8
        self.budget = 100 if self.quick else 700

    # -- specification ------------------------------------------------------
    def tlc(self, module, **kw):
        from . import tlc
        kw.setdefault("seed", self.seed)
        r = tlc.run(module, **kw)
        self.states += r.states
        self.transitions += r.transitions
        self.models.append({"module": module, "states": r.states, "transitions": r.transitions, "cases": r.n,
                            "cmd": r.cmd, "wall_s": round(r.wall, 1)})
        return r

    # -- real code ----------------------------------------------------------
    def run(self, reqs, timeout=120):
        """Executes all requests on a pool of harness processes, results in order."""
        reqs = list(reqs)
        res = [None] * len(reqs)
        q = queue.SimpleQueue()
        for i in range(len(reqs)):
            q.put(i)

        def loop():
            w = Worker()
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    break
                res[i] = w.call(reqs[i], timeout)
            w.stop()
        ts = [threading.Thread(target=loop) for _ in range(min(self.n, max(1, len(reqs))))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.evals += len(reqs)
        for r in res:
            if r["r"] == "unknown":
                raise ToolError("harness does not know %r" % r)
        return res

    def left(self):
        return self.budget - (time.time() - self.t0)

    # -- results ------------------------------------------------------------
    def violation(self, what, replay, key=None):
        """key identifies the specific failing input / site, for the known findings"""
        if key is not None and key in self.known:
            self.known_hit[key] = what
            return
        if len(self.violations) < 25:
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, ensure_ascii=False)
        else:
            path = "-"
        self.violations.append((what, path))

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def case(self, s):
        """counts a distinct case"""
        self.distinct.add(hashlib.blake2b(s.encode() if isinstance(s, str) else json.dumps(s, sort_keys=True).encode(),
                                          digest_size=8).digest())

    def count(self, name, n=1):
        self.cover[name] = self.cover.get(name, 0) + n


def load_known(prop):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding: property=%s key=" % prop):
                rest = line.split("key=", 1)[1].strip()
                key, _, what = rest.partition(" ")
                out[key] = what
    return out


def finish(ctx, rule):
    for k, what in sorted(ctx.known_hit.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (ctx.prop, k, ctx.known[k]))
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "harness_executions": ctx.evals, "distinct_nontrivial": len(ctx.distinct), "rule": rule,
            "models": ctx.models, "counts": ctx.cover, "samples": ctx.samples or ["-"],
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 1),
        "violations": len(ctx.violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for what, path in ctx.violations[:8]:
        print("  " + what[:300])
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    return 1 if ctx.violations else 0
