"""C30: models of geometry from spec/ViewsRuns.tla, loaded, changed, and viewed."""
from .files import file, chunks, opaque

CFG = "SPECIFICATION Spec\nCONSTANTS Walk = %s\n Depth = %d\n Wide = %s\nINVARIANTS WellFormed Frame Emit %s\nCHECK_DEADLOCK FALSE\n"
NULLS = dict(Wall="IFCWALL(%s,$,$,%s,$,$)", Slab="IFCSLAB(%s,$,$,%s,$,$)", Roof="IFCROOF(%s,$,$,%s,$,$)", Window="IFCWINDOW(%s,$,$,%s,$,$,$,$,$,$)",
             Door="IFCDOOR(%s,$,$,%s,$,$,$,$,$,$)", Space="IFCSPACE(%s,$,$,%s,$,$,$,$)")


def real(n):
    """sixteenths as a literal"""
    t = repr(n / 16.0)
    return t[:-1] if t.endswith(".0") else t


def ref(i):
    return "$" if i == 0 else "*" if i == -1 else "#%d" % i


def o(x):
    return "$" if x == [] else "*" if len(x) == 2 else real(x[0])


def reals(l):
    return "(%s)" % ",".join(map(real, l))


def cut(l, d):
    return "(%s)" % ",".join(reals(l[i:i + d]) for i in range(0, len(l), d))


def text(x, i, num):
    """the instance at number i; num gives the numbers of positions"""
    k, n, r = x["k"], x["n"], [ref(num(p)) for p in x["r"]]
    lst = lambda l: "(%s)" % ",".join(l)
    root = "'%022d',$,$,$" % i
    return {
        "pt2": lambda: "IFCCARTESIANPOINT(%s)" % reals(n), "pt3": lambda: "IFCCARTESIANPOINT(%s)" % reals(n),
        "dir2": lambda: "IFCDIRECTION(%s)" % reals(n), "dir3": lambda: "IFCDIRECTION(%s)" % reals(n),
        "pl2": lambda: "IFCCARTESIANPOINTLIST2D(%s,$)" % cut(n, 2), "pl3": lambda: "IFCCARTESIANPOINTLIST3D(%s,$)" % cut(n, 3),
        "opq": lambda: opaque(i), "poly": lambda: "IFCPOLYLINE(%s)" % lst(r), "icurve": lambda: "IFCINDEXEDPOLYCURVE(%s,$,$)" % r[0],
        "ax2": lambda: "IFCAXIS2PLACEMENT2D(%s,%s)" % tuple(r), "ax3": lambda: "IFCAXIS2PLACEMENT3D(%s,%s,%s)" % tuple(r),
        "rect": lambda: "IFCRECTANGLEPROFILEDEF(.%s.,$,%s,%s,%s)" % (x["s"][0], r[0], real(n[0]), real(n[1])),
        "arb": lambda: "IFCARBITRARYCLOSEDPROFILEDEF(.%s.,$,%s)" % (x["s"][0], r[0]),
        "solid": lambda: "IFCEXTRUDEDAREASOLID(%s,%s,%s,%s)" % (r[0], r[1], r[2], real(n[0])),
        "opu": lambda: "IFCCARTESIANTRANSFORMATIONOPERATOR3D(%s,%s,%s,%s,%s)" % (r[0], r[1], r[2], o(x["o"][0]), r[3]),
        "opn": lambda: "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM(%s,%s,%s,%s,%s,%s,%s)" % (r[0], r[1], r[2], o(x["o"][0]), r[3], o(x["o"][1]), o(x["o"][2])),
        "rmap": lambda: "IFCREPRESENTATIONMAP(%s,%s)" % tuple(r), "item": lambda: "IFCMAPPEDITEM(%s,%s)" % tuple(r),
        "ctx": lambda: "IFCGEOMETRICREPRESENTATIONCONTEXT($,'Model',3,$,%s,%s)" % tuple(r),
        "sub": lambda: "IFCGEOMETRICREPRESENTATIONSUBCONTEXT('Body','Model',*,*,*,*,%s,$,.MODEL_VIEW.,$)" % r[0],
        "rep": lambda: "IFCSHAPEREPRESENTATION(%s,'Body','SweptSolid',%s)" % (r[0], lst(r[1:])),
        "shape": lambda: "IFCPRODUCTDEFINITIONSHAPE($,$,%s)" % lst(r),
        "prod": lambda: NULLS[x["s"][0]] % (root, r[0]),
    }[k]()


def numbered(k, v, num):
    """the view with numbers in place of positions"""
    def rep(v):
        return [[[s, num(p)] for s, p in v[0]], [num(p) for p in v[1]], [num(p) for p in v[2]], [num(p) for p in v[3]], num(v[4])]
    if k == "prod":
        return [num(p) for p in v]
    if k == "rep":
        return rep(v)
    if k == "item":
        return [v[0], num(v[1]) if v[1] else 0, rep(v[2]), v[3]]
    return v


def same(e, g, scale=True):
    """e: expected in sixteenths, g: reals"""
    if isinstance(e, list):
        return isinstance(g, list) and len(e) == len(g) and all(same(a, b, scale) for a, b in zip(e, g))
    if isinstance(e, str):
        return e == g
    return not isinstance(g, (str, list)) and (e / 16.0 if scale else e) == g


def agree(k, e, g):
    if k in ("rep", "prod"):
        return same(e, g, False)
    if k == "item":
        return isinstance(g, list) and len(g) == 4 and same(e[0], g[0]) and same(e[1:3], g[1:3], False) and same(e[3], g[3])
    return same(e, g)


class Model:
    """one file of several cases: [(instances beyond the base, edits, views)]"""

    def __init__(self, base, cases, n):
        self.insts, self.edits, self.inline, self.asks = [], [], [], []
        for c, case in enumerate(cases):
            extra = case["insts"]
            off = 0 if base is None else len(base)
            # positions of the base keep their numbers; further ones are numbered by case
            num = lambda p, c=c, off=off: p if p <= 0 else 10 * p if p <= off else 10000 + 100 * c + (p - off) if off else 10 * p
            for j, x in enumerate(extra):
                i = num(off + j + 1)
                self.insts.append((i, text(x, i, num)))
                self.inline += [[i, x["k"], place] for place in x["i"] if not any(num(e[0]) == i for e in case["edits"])]
            for p, x in case["edits"]:
                self.edits.append([num(p), x["k"], [num(q) for q in x["r"]], [v / 16.0 for v in x["n"]]])
            final = {num(p): x for p, x in case["edits"]}
            self.inline += [[i, x["k"], place] for i, x in final.items() for place in x["i"]]
            self.asks += [(c, num(p), k, numbered(k, v, num)) for p, k, v in case["views"]]
        self.inline.sort()
        if base is not None:
            self.insts = [(10 * j, text(x, 10 * j, lambda p: 10 * p if p > 0 else p)) for j, x in enumerate(base, 1)] + self.insts
        if n % 2:
            self.insts.reverse()

    def request(self):
        return {"op": "views", "text": file(self.insts), "ids": [i for i, _ in self.insts], "edits": self.edits, "inline": self.inline,
                "ask": [a[1] for a in self.asks]}


def c30(ctx):
    deep, n = (24, 40) if ctx.quick else (60, 350)
    r = ctx.tlc("ViewsRuns", cfg=CFG % ("FALSE", 1, "TRUE", "DumpBase"))
    base = next(c for c in r.cases if "base" in c)["base"]
    models = [(base, part) for part in chunks([c for c in r.cases if c.get("insts")], 60)]
    models.append((base, [c for c in r.cases if "insts" in c and not c["insts"]]))
    if not ctx.quick:
        r = ctx.tlc("ViewsRuns", cfg=CFG % ("FALSE", 2, "FALSE", ""))
        models += [(base, part) for part in chunks([c for c in r.cases if len(c["insts"]) == 2], 60)]
    models += [(None, [c]) for c in ctx.tlc("ViewsRuns", cfg=CFG % ("TRUE", deep, "TRUE", ""), simulate=n, depth=deep + 6).cases]
    for part in chunks(list(enumerate(models)), 2000):
        judge(ctx, part)


def judge(ctx, part):
    ms = [(cases, Model(base, cases, n)) for n, (base, cases) in part]
    reqs = [m.request() for _, m in ms]
    for (cases, m), q, r in zip(ms, reqs, ctx.run(reqs)):
        ctx.traces += len(cases)
        for c in cases:
            ctx.case(str((c["insts"], c["edits"])))
        if r["r"] != "ok":
            ctx.violation("viewing fails: %s" % r.get("msg", r["r"]), {"request": q, "result": r})
            continue
        for (c, i, k, e), g in zip(m.asks, r["views"]):
            ctx.count(k)
            if not agree(k, e, g):
                ctx.violation("view of %s #%d: expected %s, is %s" % (k, i, e, g), {"case": cases[c], "instance": i, "expected": e, "got": g, "text": q["text"],
                                                                                   "edits": q["edits"], "inline": q["inline"]})
                break
        else:
            if len(cases) == 1 and cases[0]["edits"]:
                ctx.sample({"insts": [t for _, t in m.insts[-6:]], "edits": m.edits, "view": m.asks[-1][2:]}, 2)
