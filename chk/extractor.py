"""C28, C29: models of relations from spec/ExtractorRuns.tla, loaded, edited, and asked through the extractor."""
from .files import file, chunks

CFG = "SPECIFICATION Spec\nCONSTANTS Walk = %s\n Depth = %d\n Few = %d\nINVARIANTS Whole TypesFit %s\nCHECK_DEADLOCK FALSE\n"
NULLS = dict(Site=10, Building=8, Storey=6, Space=7, Wall=5, Slab=5, Roof=5, ShadingDevice=5,
             OpeningElement=5, Window=9, Door=9)
CLASS = dict(Storey="IFCBUILDINGSTOREY")
REL = dict(agg="IFCRELAGGREGATES(%s,#%d,(%s))", cont="IFCRELCONTAINEDINSPATIALSTRUCTURE(%s,(%s),#%d)", void="IFCRELVOIDSELEMENT(%s,#%d,%s)",
           mat="IFCRELASSOCIATESMATERIAL(%s,(%s),#%d)", type="IFCRELDEFINESBYTYPE(%s,(%s),#%d)")
QUESTIONS = dict(C28=("projects", "parts", "content"), C29=("type", "voids", "layers", "constituents"))


def root(i):
    return "'%022d',$,'%d',$" % (i, i)


def refs(l):
    return ",".join("#%d" % x for x in l)


def cast_texts(dump):
    """the objects of the cast, named by their numbers"""
    out, sets, by = [], dump["sets"], {c["k"]: c["ids"] for c in dump["cast"]}
    for k, ids in by.items():
        kw = CLASS.get(k, "IFC" + k.upper())
        for n, i in enumerate(ids):
            if k == "Project":
                t = "%s(%s,$,$,$,(),$)" % (kw, root(i))
            elif k in NULLS:
                t = "%s(%s%s)" % (kw, root(i), ",$" * NULLS[k])
            elif k in ("WindowType", "DoorType"):
                t = "%s(%s,$,$,$,$,$,.NOTDEFINED.,.NOTDEFINED.,$,$)" % (kw, root(i))
            elif k.endswith("Type"):
                t = "%s(%s,$,$,$,$,$,.NOTDEFINED.)" % (kw, root(i))
            elif k == "MaterialLayer":
                t = "%s(#%d,0.25,.F.,'%d',$,$,$)" % (kw, by["Material"][0], i)
            elif k == "MaterialLayerSet":
                t = "%s((%s),'%d',$)" % (kw, refs(sets["layer"][n]), i)
            elif k == "MaterialLayerSetUsage":
                t = "%s(#%d,.AXIS2.,.POSITIVE.,0.,$)" % (kw, sets["usage"][n])
            elif k == "MaterialConstituent":
                t = "%s('%d',$,#%d,$,$)" % (kw, i, by["Material"][0])
            elif k == "MaterialConstituentSet":
                t = "%s('%d',$,(%s))" % (kw, i, refs(sets["constituent"][n]))
            elif k == "Material":
                t = "%s('%d',$,$)" % (kw, i)
            else:
                t = "IFCOPAQUETHING('%d',$)" % i
            out.append((i, t))
    return out


def rel_text(r):
    b, a = refs(r["b"]), r["a"]
    return REL[r["k"]] % ((root(r["id"]), a, b) if r["k"] in ("agg", "void") else (root(r["id"]), b, a))


def compose(cast, case, n):
    """the relations stand before, after or within the cast"""
    rels = [(r["id"], rel_text(r)) for r in case["rels"]]
    at = (0, len(cast), len(cast) // 2)[n % 3]
    return file(cast[:at] + rels + cast[at:])


def expected(case, dump, qs):
    out = {}
    if "projects" in qs:
        out[("projects", 0, "")] = next([[i, str(i)] for i in c["ids"]] for c in dump["cast"] if c["k"] == "Project")
    for a in case["given"]:
        if a["q"] in qs:
            out[(a["q"], a["x"], a["k"])] = [[i, str(i)] if a["q"] == "parts" else i if a["q"] == "content" else str(i) for i in a["r"]]
    return out


def check(prop):
    qs = QUESTIONS[prop]

    def run(ctx):
        kinds = ("agg", "cont") if prop == "C28" else ("void", "mat", "type")
        depth, few, n, deep = (2, 2, 60, 10) if ctx.quick else (3, 2, 1200, 13)
        r = ctx.tlc("ExtractorRuns", cfg=CFG % ("FALSE", depth, few, "Emit DumpCast"))
        dump = next(c for c in r.cases if "cast" in c)
        cases = [c for c in r.cases if "rels" in c and c["rels"][0]["k"] in kinds]
        cases += ctx.tlc("ExtractorRuns", cfg=CFG % ("TRUE", deep, few, "Emit"), simulate=n, depth=deep + 5).cases
        # many relations
        for k in range(1 if ctx.quick else 6):
            cases += ctx.tlc("ExtractorRuns", cfg=CFG % ("TRUE", 60, few, "Emit"), simulate=4, depth=65, seed=ctx.seed + 7 + k).cases
        cast = cast_texts(dump)
        for part in chunks(list(enumerate(cases)), 4000):
            judge(ctx, qs, dump, cast, part)
    return run


def bare(x):
    """names without their apostrophes"""
    return x.strip("'") if isinstance(x, str) else [x[0], x[1].strip("'")] if isinstance(x, list) else x


def judge(ctx, qs, dump, cast, part):
    reqs = [{"op": "extract", "text": compose(cast, c, n), "edits": c["edits"]} for n, c in part]
    for (n, c), q, r in zip(part, reqs, ctx.run(reqs)):
        ctx.case(q["text"] + str(c["edits"]))
        ctx.traces += 1
        if r["r"] != "ok":
            ctx.violation("asking the extractor fails: %s" % r.get("msg", r["r"]), {"case": c, "text": q["text"], "result": r})
            continue
        exp = expected(c, dump, qs)
        got = {(a[0], a[1], a[2]): [bare(x) for x in a[3]] for a in r["given"] if a[0] in qs}
        ctx.count("questions", r["asked"])
        for k in exp:
            ctx.count(k[0])
        if exp != got:
            k = sorted(k for k in set(exp) | set(got) if exp.get(k) != got.get(k))[0]
            ctx.violation("%s of #%d %s: expected %s, is %s" % (k[0], k[1], k[2], exp.get(k, "none"), got.get(k, "none")),
                          {"case": c, "text": q["text"], "edits": c["edits"], "result": r})
        elif len(c["rels"]) > 4:
            ctx.sample({"rels": c["rels"], "edits": c["edits"], "given": c["given"]}, 2)
