"""C07: files with faults are loaded by the real code, which must return a model or an error."""
from .files import HEADER, FOOTER, opaque
from .loader import cfg, grown


def wrap(c):
    if c["base"] == 0:
        return c["s"]
    return HEADER + "DATA;\n#1=IFCOPAQUE(1);\n#2=IFCOPAQUE(2);\n#3=IFCOPAQUE(3);\n" + c["s"] + "\n#30=IFCMONETARYUNIT('x');\n" + FOOTER


def c07(ctx):
    inv = "Bounded Emit"
    if ctx.quick:
        cases = ctx.tlc("Faults", cfg=cfg(["MaxFaults = 1", 'Pick = "all"', "Slice = %d" % (ctx.seed % 8), "Slices = 8"], inv)).cases
        cases += ctx.tlc("Faults", cfg=cfg(["MaxFaults = 8", 'Pick = "one"', "Slice = 0", "Slices = 1"], inv), simulate=60, depth=9).cases
    else:
        cases = ctx.tlc("Faults", cfg=cfg(["MaxFaults = 1", 'Pick = "all"', "Slice = 0", "Slices = 1"], inv)).cases
        cases += ctx.tlc("Faults", cfg=cfg(["MaxFaults = 12", 'Pick = "one"', "Slice = 0", "Slices = 1"], inv), simulate=1500, depth=13).cases
    judge(ctx, cases)
    for c, t, r in grown(ctx, "again"):
        d = None
        if r["r"] not in ("ok", "err"):
            d = "loading ends with %s (%s)" % (r["r"], r.get("msg", "")[:100])
        elif r["r"] == "ok" and r["again"]["r"] != "ok":
            d = "written text is not loaded again (%s)" % r["again"]["r"]
        if d:
            ctx.violation("%s, %d times: %s" % (c["name"], c["times"], d), {"case": c["name"], "times": c["times"], "text": t[:2000]})


def judge(ctx, cases):
    texts = list(dict.fromkeys(wrap(c) for c in cases))
    for c in cases:
        ctx.count("fault: %s" % (c["fault"] or "none"))
    ctx.sample(cases[len(cases) // 2]["s"])
    ctx.sample(cases[-1]["s"])
    bad = {}
    intact = {wrap(c) for c in cases if c["n"] == 0}
    for t, r in zip(texts, ctx.run([{"op": "load", "text": t, "want": "again", "lean": True} for t in texts], timeout=20)):
        ctx.traces += 1
        ctx.case(t)
        ctx.count("loading: %s" % r["r"])
        d = None
        if r["r"] not in ("ok", "err"):
            d = "loading ends with %s (%s)" % (r["r"], r.get("msg", "")[:100])
        elif t in intact and r["r"] != "ok":
            d = "file without fault is not loaded"
        elif r["r"] == "ok" and r["again"]["r"] != "ok":
            d = "written text is not loaded again (%s)" % r["again"]["r"]
        if d:
            k = d[:60]
            bad[k] = bad.get(k, 0) + 1
            if bad[k] <= 3:
                lines = t.split("\n")
                ctx.violation("%s: %s" % (d, " | ".join(lines[4:] if t.startswith(HEADER) else lines)[:400]), {"text": t, "out": r.get("out")})
