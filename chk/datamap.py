"""C14, C15: the data map."""
import json, os, tempfile
from . import step
from .files import file
from .tlc import TlcError


def histories(ctx, sim):
    c = "SPECIFICATION Spec\nCONSTANTS Depth = %d\n Walk = %s\n Ids <- %s\nINVARIANTS Emit\nPROPERTIES %s\nCHECK_DEADLOCK FALSE\n"
    n = 2 if ctx.quick else 3
    k = 40 if ctx.quick else 60
    hs = ctx.tlc("MapRuns", cfg=c % (n, "FALSE", "SmallIds", "Allocates Absent")).cases
    hs += ctx.tlc("MapRuns", cfg=(c % (k, "TRUE", "LargeIds", "")).replace("PROPERTIES \n", ""), simulate=sim, depth=k + 1).cases
    return hs


def replay(ctx, hs, judge):
    reqs = []
    for h in hs:
        long = len(h["hist"]) > 5
        text = file([(str(i), t) for i, _, t in h["start"]]) if h["start"] and not h["pairs"] else None
        ask = []
        for n, e in enumerate(h["hist"]):
            ids = {i for i, _, _ in e["obs"]}
            near = sorted({j for i in ids for j in (i - 1, i, i + 1) if j >= 0} | set(range(12)))
            ask.append(near if long or n == len(h["hist"]) - 1 else [])
        reqs.append({"op": "map", "text": text, "pairs": [[i, ty, t.split("'")[1]] for i, ty, t in h["pairs"]], "hist": [e["o"] for e in h["hist"]], "ask": ask})
    bad = 0
    for h, q, r in zip(hs, reqs, ctx.run(reqs)):
        ctx.traces += 1
        ctx.case([h["start"], q["hist"]])
        d = "gives %s" % r["r"] if r["r"] != "ok" else None
        for n, e in enumerate(h["hist"]):
            if d:
                break
            s = r["steps"][n]
            d = judge(e, s, q["ask"][n], dict((i, (ty, t)) for i, ty, t in (h["hist"][n - 1]["obs"] if n else h["start"])))
            if d:
                d = "step %d (%s): %s" % (n + 1, json.dumps(e["o"]), d)
        if d:
            bad += 1
            if bad <= 6:
                ctx.violation(d, {"start": h["start"], "pairs": h["pairs"], "hist": q["hist"]})


def judge_map(e, s, ask, before):
    if e["o"]["op"] not in ("new", "construct") and s["res"] != e["res"]:
        return "returned %r, %r expected" % (s["res"], e["res"])
    if not ask:
        return None
    o, exp = s["obs"], {i: (ty, t) for i, ty, t in e["obs"]}
    seen = {}
    for ty, all_, ids, got in o["types"]:
        want = [[i, t] for i, y, t in e["obs"] if y == ty]
        if all_ != want:
            return "iteration over %s gives %r, %r expected" % (ty, all_, want)
        if ids != [i for i, _ in want]:
            return "numbers of %s are %r, %r expected" % (ty, ids, [i for i, _ in want])
        if got != [t for _, t in want]:
            return "typed lookup of %s gives %r" % (ty, got)
        for i, t in all_:
            seen[i] = t
    for i, c, rs, u in zip(ask, o["contains"], o["resolve"], o["untyped"]):
        t = exp[i][1] if i in exp else None
        if c != (i in exp):
            return "contains(%d) is %s" % (i, c)
        if rs != t or u != t:
            return "lookup of %d gives %r and %r, %r expected" % (i, u, rs, t)
    w = [[int(i), t] for i, t in step.sections(o["out"])[1]]
    if w != [[i, t] for i, _, t in e["obs"]]:
        return "the written file has %r" % w
    return None


def judge_new(e, s, ask, before):
    new = e["o"]["op"] in ("new", "construct")
    if new and s["res"] != e["res"]:
        return "new number is %s, %s expected" % (s["res"], e["res"])
    if not ask or not new:
        return None
    w = {int(i): t for i, t in step.sections(s["obs"]["out"])[1]}
    for i, (_, t) in before.items():
        if w.get(i) != t:
            return "instance %d was %r and is now %r" % (i, t, w.get(i))
    exp = {i: t for i, _, t in e["obs"]}
    for i in set(w) | set(exp):
        if i not in before and w.get(i) != exp.get(i):
            return "instance %d is %r, %r expected" % (i, w.get(i), exp.get(i))
    return None


def recorded(ctx, n, length):
    """histories of the real map, checked by TLC against the specification"""
    for k, r in enumerate(ctx.run([{"op": "mapdrive", "seed": ctx.seed * 100 + i, "n": length} for i in range(n)])):
        if r["r"] != "ok":
            ctx.violation("random operations give %s" % r, {"seed": ctx.seed * 100 + k, "n": length})
            continue
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
            for e in r["log"]:
                f.write(json.dumps(e) + "\n")
        try:
            ctx.tlc("MapTrace", cfg="SPECIFICATION Spec\n", workers=1, env={"TRACE": f.name})
            ctx.traces += 1
            ctx.count("recorded events accepted", len(r["log"]))
        except TlcError as x:
            if "Deadlock reached" not in x.out:
                raise
            import re
            ks = [int(v) for v in re.findall(r"/\\ k = (\d+)", x.out)]
            i = ks[-1] - 1 if ks else 0
            ctx.violation("recorded history is no behaviour of the specification at event %d: %s" % (i + 1, json.dumps(r["log"][i]["o"])),
                          {"events": r["log"][max(0, i - 1):i + 1]})
        finally:
            os.unlink(f.name)


def c14(ctx):
    hs = histories(ctx, 10 if ctx.quick else 400)
    ctx.sample([e["o"] for e in hs[0]["hist"]])
    ctx.cover["histories"] = len(hs)
    replay(ctx, hs, judge_map)
    recorded(ctx, 4 if ctx.quick else 40, 400 if ctx.quick else 1500)


def c15(ctx):
    hs = [h for h in histories(ctx, 10 if ctx.quick else 400) if any(e["o"]["op"] in ("new", "construct") for e in h["hist"])]
    ctx.sample([e["o"] for e in hs[0]["hist"]])
    ctx.cover["histories"] = len(hs)
    replay(ctx, hs, judge_new)
    recorded(ctx, 4 if ctx.quick else 40, 400 if ctx.quick else 1500)
