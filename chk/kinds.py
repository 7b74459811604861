"""C31: models of all kinds of instances from spec/KindsRuns.tla, loaded, changed, and asked what they are."""
from .files import file, chunks

CFG = "SPECIFICATION Spec\nCONSTANTS Walk = %s\n Depth = %d\nINVARIANTS Divided PartsAreStructure ShapesOfProducts Emit%s\nCHECK_DEADLOCK FALSE\n"
# attributes behind the representation
AFTER = dict(Site=7, Building=5, Storey=3, Space=4, Wall=2, Slab=2, Roof=2, ShadingDevice=2, OpeningElement=2, Window=6, Door=6)
KEYWORD = dict(Storey="IFCBUILDINGSTOREY")


def text(k, rep, s):
    root = "'%022d',$,'%d',$" % (s, s)
    kw = KEYWORD.get(k, "IFC" + k.upper())
    if k in AFTER:
        return "%s(%s,$,$,%s%s)" % (kw, root, {0: "$", -1: "*"}.get(rep, "#%d" % rep), ",$" * AFTER[k])
    return {
        "Project": "IFCPROJECT(%s,$,$,$,(),$)" % root, "Material": "IFCMATERIAL('%d',$,$)" % s,
        "ProductDefinitionShape": "IFCPRODUCTDEFINITIONSHAPE('%d',$,())" % s, "PropertySet": "IFCPROPERTYSET(%s,())" % root,
        "Organization": "IFCORGANIZATION($,'%d',$,$,$)" % s, "Dummy": "IFCOPAQUETHING('%d',$)" % s,
        "WindowType": "IFCWINDOWTYPE(%s,$,$,$,$,$,.NOTDEFINED.,.NOTDEFINED.,$,$)" % root,
        "SpaceType": "IFCSPACETYPE(%s,$,$,$,$,$,.NOTDEFINED.,$)" % root,
        "DoorType": "IFCDOORTYPE(%s,$,$,$,$,$,.NOTDEFINED.,.NOTDEFINED.,$,$)" % root,
    }.get(k) or "%s(%s,$,$,$,$,$,.NOTDEFINED.)" % (kw, root)


def c31(ctx):
    r = ctx.tlc("KindsRuns", cfg=CFG % ("FALSE", 1, " DumpKinds"))
    kinds = next(c for c in r.cases if isinstance(c, list))[1]
    cases = [c for c in r.cases if isinstance(c, dict)]
    if not ctx.quick:
        cases += [c for c in ctx.tlc("KindsRuns", cfg=CFG % ("TRUE", 40, ""), simulate=800, depth=42).cases]
    cases += ctx.tlc("KindsRuns", cfg=CFG % ("TRUE", 14, ""), simulate=25 if ctx.quick else 500, depth=16).cases
    for part in chunks(cases, 4000):
        judge(ctx, kinds, part)


def start_text(c, n):
    insts = [(6, text("ProductDefinitionShape", 0, 6))] + [(i, text(k, rep, s + 1)) for s, (i, k, rep) in enumerate(c["start"])]
    return file(insts[n % len(insts):] + insts[:n % len(insts)])


def near(e):
    ids = {a[0] for a in e["about"]}
    return sorted({j for i in ids for j in (i, i + 1) if i < 2000000001 or j == i} | {1, 5, 12, 33})


def judge(ctx, kinds, part):
    reqs = [{"op": "kinds", "text": start_text(c, n), "hist": [e["o"] for e in c["hist"]], "ids": [near(e) for e in c["hist"]]} for n, c in enumerate(part)]
    for c, q, r in zip(part, reqs, ctx.run(reqs)):
        ctx.case([q["text"], q["hist"]])
        ctx.traces += 1
        d = None if r["r"] == "ok" else "asking fails: %s" % r.get("msg", r["r"])
        for n, e in enumerate(c["hist"]):
            if d:
                break
            s = r["steps"][n]
            exp = {a[0]: a for a in e["about"]}
            for g in s["about"]:
                x = exp.get(g[0])
                if (x is None) != (len(g) == 1):
                    d = "#%d is %s" % (g[0], "there" if x is None else "not there")
                elif x:
                    ctx.count(x[1])
                    if g[2:5] != x[3:6]:
                        d = "#%d (%s) answers in structure %s, part %s, shape %s; expected %s, %s, %s" % tuple(g[:1] + [x[1]] + g[2:5] + x[3:6])
                    elif g[6] != x[6]:
                        d = "the representation of #%d (%s) is (omitted, derived, given, which) %s, %s expected" % (g[0], x[1], g[6], x[6])
                    elif not g[5]:
                        d = "#%d (%s) answers with another instance" % (g[0], x[1])
                    elif ("'%d'" % x[2]) not in g[1]:
                        d = "#%d (%s) is %s, number %d expected" % (g[0], x[1], g[1], x[2])
                if d:
                    break
            for i, k in enumerate(kinds):
                name, found, ids, same = s["of"][i] if not d else (k, 0, 0, 0)
                if not d and (found != e["of"][i] or ids != e["of"][i] or not same or name != k) and name == k:
                    d = "the instances of kind %s are %s and %s, %s expected" % (k, found, ids, e["of"][i])
            if d:
                d = "step %d (%s): %s" % (n + 1, e["o"], d)
        if d:
            ctx.violation(d, {"start": c["start"], "text": q["text"], "hist": q["hist"]})
        elif len(c["hist"]) > 4:
            ctx.sample({"start": c["start"], "hist": q["hist"]}, 2)
