"""C33: models built by programs of spec/BuiltRuns.tla, written, loaded and asked through the extractor."""
from collections import Counter
from . import step
from .builder import File, show
from .files import chunks

CFG = """SPECIFICATION Spec
CONSTANTS Walk = %s
 Depth = %d
 Frames = {%s}
 Bases <- PlainBases
INVARIANTS LawsHold OneType OneHome EmitAsks
CHECK_DEADLOCK FALSE
"""
KIND = dict(site="Site", building="Building", storey="Storey", space="Space")
INORDER = ("layers", "constituents")


def plain(t):
    return step.P(t, 0).value()[1] if t.startswith("'") else t


def expected(case, f):
    out = {("projects", "0", ""): [[f.where[0], case["who"]["project"]]]}
    for a in case["asks"]:
        objs = [case["objs"][h - 1] for h in a["r"]]
        x = f.where[a["x"]] if a["x"] else f.where[0]
        if a["q"] == "parts":
            r = [[f.where[h], o["n"]] for h, o in zip(a["r"], objs)]
        elif a["q"] == "content":
            r = [f.where[h] for h in a["r"]]
        else:
            r = [f.insts[f.where[h]] for h in a["r"]]
        out[(a["q"], x, KIND.get(a["k"], ""))] = r if a["q"] in INORDER else sorted(r, key=str)
    return out


def found(r):
    out = {}
    for q, x, k, l in r["given"]:
        l = [[str(e[0]), plain(e[1])] if isinstance(e, list) else str(e) if q == "content" else step.parse_inst(e.rstrip(";")) for e in l]
        out[(q, str(x), k)] = l if q in INORDER else sorted(l, key=str)
    return out


def c33(ctx):
    cases = ctx.tlc("BuiltRuns", cfg=CFG % ("FALSE", 22, 20)).cases
    for k in range(1 if ctx.quick else 10):
        cases += ctx.tlc("BuiltRuns", cfg=CFG % ("TRUE", 60, "0, 20"), simulate=100, depth=80, seed=ctx.seed + 50 * k).cases
        cases += ctx.tlc("BuiltRuns", cfg=CFG % ("TRUE", 300, "20"), simulate=4, depth=340, seed=ctx.seed + 50 * k + 7).cases
    ctx.cover["programs"] = len(cases)
    for p in chunks(cases, 400):
        judge(ctx, p)


def judge(ctx, cases):
    built = []
    for c, r in zip(cases, ctx.run([{"op": "build", "cases": [{"prog": c["prog"], "who": c["who"]}]} for c in cases])):
        x = r["list"][0] if r["r"] == "ok" else r
        ctx.case(repr(show(c["prog"])))
        if x["r"] != "ok":
            ctx.violation("the program does not build a file: %s" % x.get("msg", x["r"]), {"program": show(c["prog"])})
        else:
            built.append((c, x))
    answers = ctx.run([{"op": "extract", "text": x["out"], "edits": [], "whole": True} for _, x in built])
    for (c, x), r in zip(built, answers):
        ctx.traces += 1
        bad = None
        if r["r"] != "ok":
            bad = "the extractor fails on a built model: %s" % r.get("msg", r["r"])
        else:
            try:
                f = File(x["out"], c, x["ids"])
                exp, got = expected(c, f), found(r)
            except (step.Bad, KeyError, IndexError, TypeError, ValueError) as e:
                bad = "the built file does not hold what the program made: %r" % e
            else:
                ctx.count("questions", r["asked"])
                for k in exp:
                    ctx.count(k[0])
                for k in sorted(set(exp) | set(got), key=str):
                    if exp.get(k) != got.get(k):
                        bad = bad or "%s of #%s %s after building and loading: expected %s, is %s" % (k + (exp.get(k, "none"), got.get(k, "none")))
        if bad:
            ctx.violation(bad, {"program": show(c["prog"]), "who": c["who"], "built": x["out"], "answers": r})
