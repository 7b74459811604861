"""C16, C17: constructors and setters, histories from spec/ApiRuns.tla."""
import re
from . import step
from .files import file, chunks

CFG = "SPECIFICATION Spec\nCONSTANTS Mode = \"%s\"\n Depth = %d\n Pairs = %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
GUID = "'0000000000000000%06d'"
IS_GUID = re.compile(r"^([A-Z0-9]+)\('[0-9A-Za-z_$]{22}'")


def tables(ctx):
    t = ctx.tlc("ApiRuns", cfg=CFG % ("star", 0, "FALSE", "DumpTable")).cases[0]
    insts, seen = [], 0
    for ida, idb, text in t["base"]:
        for i in (ida, idb):
            seen += 1
            insts.append((i, text.replace("(?", "(" + GUID % seen)))
    samples = {c["ty"]: p for c, p in zip(t["classes"], t["samples"])}
    return file(sorted(insts, key=lambda x: int(x[0]))), samples, t


def histories(ctx):
    star, pairs, n, depth = (1, "FALSE", 60, 8) if ctx.quick else (2, "TRUE", 4000, 14)
    cases = ctx.tlc("ApiRuns", cfg=CFG % ("star", star, pairs, "Law Emit")).cases
    cases += ctx.tlc("ApiRuns", cfg=CFG % ("repeat", 3 if ctx.quick else 4, "FALSE", "Law Emit")).cases
    cases += ctx.tlc("ApiRuns", cfg=CFG % ("walk", depth, "FALSE", "Law Emit"), simulate=n, depth=depth + 2).cases
    return cases


def key(c):
    return repr((c["ty"], [(a["f"], a["ty"], a["s"]) for a in c["ctor"]], [(k["fn"], k["arg"]["f"], k["arg"]["ty"], k["arg"]["s"]) for k in c["calls"]]))


def judge(base, shared, c, r):
    """None if the run r of history c is as the specification says"""
    if "panic" in r:
        return "panics: " + r["panic"]
    insts = step.sections(r["out"])[1]
    now = dict(insts)
    if len(now) != len(insts):
        return "a number is written twice"
    for i, t in base.items():
        if now.get(i) != t:
            return "changes instance #%s, which it has nothing to do with: %s" % (i, now.get(i))
    new = {i: IS_GUID.sub(r"\1(?", t) for i, t in now.items() if i not in base}
    used = []

    def expand(i):
        used.append(i)
        return re.sub(r"#(\d+)", lambda m: "{" + expand(m.group(1)) + "}" if m.group(1) in new else m.group(0), new[i])
    if str(r["id"]) not in new:
        return "the object is not among the instances"
    got = expand(str(r["id"]))
    if got != c["expect"]:
        return "gives %s" % got
    if len(new) != c["stored"] or (len(set(used)) != len(used) and c["ty"] not in shared):
        return "stores %d instances" % len(new)
    a = r["again"]
    if "err" in a:
        return "gives a model that cannot be loaded: " + a["err"]
    if a["opaque"] or not a["same"]:
        return "gives a model that is loaded differently (unsupported: %s)" % a["opaque"]
    return None


def show(c):
    arg = lambda a: (a["f"] + " " if a["f"] else "") + (a["ty"] + " " if a["ty"] else "") + repr(a["s"])
    return "%s(%s)%s" % (c["ty"], ", ".join(arg(a) for a in c["ctor"]), "".join(".%s(%s)" % (k["fn"], arg(k["arg"])) for k in c["calls"]))


def run(ctx, prop):
    text, samples, t = tables(ctx)
    cases = list({key(c): c for c in histories(ctx)}.values())
    if prop == "C16":
        cases = [c for c in cases if c["twin"]]
    ctx.cover["classes"] = len(t["classes"])
    ctx.cover["constructors and setters"] = len({(c["ty"], k["fn"]) for c in cases for k in c["calls"]} | {c["ty"] for c in cases})
    ctx.cover["histories"] = len(cases)
    ctx.cover["longest"] = max(len(c["calls"]) for c in cases)
    ctx.sample(show(cases[0]))
    ctx.sample({"history": show(cases[-1]), "expected": cases[-1]["expect"]})
    r = ctx.run([{"op": "load", "text": text, "want": "proj texts"}])[0]
    if r["r"] != "ok" or r["opaque"]:
        ctx.violation("the base model with two plain instances of every class is not loaded: %s" % {k: r[k] for k in ("r", "msg", "opaque") if k in r}, {"text": text})
        return
    base = dict(step.sections(r["out"])[1])
    shared = {k["ty"] for k in t["classes"] if any(s["also"] for s in k["sets"])}     # a value may be referred to twice
    todo = {}
    for c in cases:
        todo[key(c)] = c
        if prop == "C16":
            tw = {"ty": c["ty"], **c["twin"][0]}
            todo[key(tw)] = tw
    verdict = {}
    packs = list(chunks(list(todo.items()), 60))
    for ch, r in zip(packs, ctx.run([{"op": "api", "text": text, "samples": samples, "cases": [
            {"ty": c["ty"], "ctor": c["ctor"], "calls": c["calls"]} for _, c in ch]} for ch in packs])):
        if r["r"] != "ok":
            ctx.violation("histories end abnormally: %s" % r, [show(c) for _, c in ch])
            continue
        for (k, c), x in zip(ch, r["v"]):
            ctx.traces += 1
            ctx.case(k)
            verdict[k] = (judge(base, shared, c, x), x)
    n = 0
    for c in cases:
        d, x = verdict.get(key(c), (None, None))
        if prop == "C16":
            tw = {"ty": c["ty"], **c["twin"][0]}
            e, y = verdict.get(key(tw), (None, None))
            bad = (d is None) != (e is None)
            d = "%s, but with references: %s %s" % (d or "is as specified", show(tw), e or "is as specified")
        else:
            bad = d is not None
        if bad:
            n += 1
            if n <= 5:
                ctx.violation("%s %s, expected %s with %d instances stored" % (show(c), d, c["expect"], c["stored"]), {"case": c, "result": x})
    if n:
        ctx.count("deviating histories", n)


def c16(ctx):
    run(ctx, "C16")


def c17(ctx):
    run(ctx, "C17")
