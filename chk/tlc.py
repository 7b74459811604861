"""Runs TLC on a specification in /verif/spec and collects the cases it emits."""
import json, os, re, shutil, subprocess, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


# TLC keeps only ASCII texts intact; the specifications write other characters as <U+00C4>
UNI = re.compile(r"<U\+([0-9A-F]{4})>")


def uni(x):
    if isinstance(x, str):
        return UNI.sub(lambda m: chr(int(m.group(1), 16)), x)
    if isinstance(x, list):
        return [uni(y) for y in x]
    if isinstance(x, dict):
        return {k: uni(v) for k, v in x.items()}
    return x


class TlcError(Exception):
    out = ""


class Result:
    def __init__(self):
        self.cases, self.states, self.transitions, self.wall, self.cmd, self.out = [], 0, 0, 0.0, "", ""
        self.violated = None
        self.n = 0      # number of cases


def run(module, simulate=None, seed=1, **kw):
    """a simulation runs as eight processes of one worker: workers of one process share the random elements"""
    if not simulate:
        return run1(module, seed=seed, **kw)
    from concurrent.futures import ThreadPoolExecutor
    kw.update(workers=1, heap="2g", simulate=simulate)
    with ThreadPoolExecutor(8) as pool:
        rs = list(pool.map(lambda k: run1(module, seed=seed * 1000 + k, **kw), range(8)))
    r = rs[0]
    for x in rs[1:]:
        r.cases += x.cases
        r.n += x.n
        r.states += x.states
        r.transitions += x.transitions
        r.wall = max(r.wall, x.wall)
        r.violated = r.violated or x.violated
    return r


def run1(module, cfg=None, workers=8, simulate=None, depth=None, seed=1, timeout=600, env=None, heap="6g",
        allow_violation=False, extra=(), sink=None, batch=2000):
    """module: name of spec/<module>.tla; cfg: config text or None for <module>.cfg;
    sink: is called with the cases in batches, while TLC is running, instead of keeping them"""
    tmp = tempfile.mkdtemp(prefix="tlc-")
    try:
        if cfg is None:
            cfgfile = os.path.join(SPEC, module + ".cfg")
        elif "\n" in cfg:
            cfgfile = os.path.join(tmp, module + ".cfg")
            open(cfgfile, "w").write(cfg)
        else:
            cfgfile = os.path.join(SPEC, cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
               "-cp", CP, "tlc2.TLC", "-config", cfgfile, "-metadir", os.path.join(tmp, "meta"),
               "-workers", str(workers), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        t = time.time()
        p = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        r = Result()
        rest, got = [], []
        try:
            for raw in p.stdout:
                line = raw.decode("utf-8", "replace").rstrip("\n")
                if line.startswith('"@@'):
                    c = json.loads(json.loads(line)[2:])
                    got.append(uni(c) if "<U+" in line else c)
                    r.n += 1
                    if sink and len(got) >= batch:
                        sink(got)
                        got = []
                else:
                    rest.append(line)
            p.wait()
        finally:
            timer.cancel()
            if p.poll() is None:
                p.kill()
                p.wait()
        r.wall = time.time() - t
        r.cmd = " ".join(os.path.basename(c) if c.startswith(tmp) else c for c in cmd[8:])
        if sink:
            if got:
                sink(got)
        else:
            r.cases = got
        r.out = "\n".join(rest)
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", r.out):
            pass
        if m:
            r.transitions, r.states = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"The number of states generated: (\d+)", r.out)
            if m:
                r.transitions = r.states = int(m.group(1))
        ok = p.returncode == 0 and "Error:" not in r.out
        if not ok:
            v = re.search(r"Error: (Invariant|Action property|Property) (\S+) is violated|Error: (Postcondition|Temporal)", r.out)
            if v and allow_violation:
                r.violated = v.group(0)
            else:
                x = TlcError("TLC on %s: rc %d\n%s" % (module, p.returncode, re.sub(r"(?m)^(Parsing file|Semantic processing).*\n", "", r.out)[-1500:]))
                x.out = r.out
                raise x
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
