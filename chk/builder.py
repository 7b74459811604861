"""C18 to C27: programs of builder calls from spec/BuilderRuns.tla, executed and compared with the specification's model of the built file."""
import math, re
from collections import Counter
from multiprocessing import Pool
from . import step
from .files import chunks

CFG = "SPECIFICATION Spec\nCONSTANTS Walk = %s\n Depth = %d\n Frames = {%s}\nINVARIANTS LawsHold Emit\nCHECK_DEADLOCK FALSE\n"
CLASS = dict(project="IFCPROJECT", site="IFCSITE", building="IFCBUILDING", storey="IFCBUILDINGSTOREY", space="IFCSPACE", roof="IFCROOF",
             shading="IFCSHADINGDEVICE", wall="IFCWALL", slab="IFCSLAB", opening="IFCOPENINGELEMENT", window="IFCWINDOW",
             material="IFCMATERIAL", layer="IFCMATERIALLAYER", layerset="IFCMATERIALLAYERSET", usage="IFCMATERIALLAYERSETUSAGE", constituent="IFCMATERIALCONSTITUENT",
             cset="IFCMATERIALCONSTITUENTSET", walltype="IFCWALLTYPE", slabtype="IFCSLABTYPE", rooftype="IFCROOFTYPE", windowtype="IFCWINDOWTYPE",
             spacetype="IFCSPACETYPE", shadingtype="IFCSHADINGDEVICETYPE", pset="IFCPROPERTYSET")
TYPES = ("walltype", "slabtype", "rooftype", "windowtype", "spacetype", "shadingtype")
ELEMENTS = ("wall", "slab", "roof", "window", "shading")
SPATIAL = ("site", "building", "storey", "space")
VALUE = dict(real="IFCREAL", thermal="IFCTHERMALTRANSMITTANCEMEASURE", bool="IFCBOOLEAN", label="IFCLABEL", identifier="IFCIDENTIFIER")
GUID = re.compile(r"^[0-3][0-9A-Za-z_$]{21}$")
U = 16.0
NULL = ("null",)


class File:
    """A built file, read with the independent reader, with the objects of a case located in it"""

    def __init__(self, out, case, ids):
        self.insts = {i: step.parse_inst(t) for i, t in step.sections(out)[1]}
        self.by = {}
        for i, (k, a) in self.insts.items():
            self.by.setdefault(k, []).append(i)
        self.faults = []           # objects the program made that are not what they should be: (handle, what)
        self.where = {0: None}     # handle -> instance number or None
        if len(self.by.get("IFCPROJECT", [])) == 1:
            self.where[0] = self.by["IFCPROJECT"][0]
        objs = case["objs"]
        for h, o in enumerate(objs, 1):
            i = str(ids[h - 1])
            if i != "0":
                if i not in self.insts or self.insts[i][0] != CLASS[o["k"]]:
                    self.faults.append((h, "is not %s: %s" % (CLASS[o["k"]], self.insts.get(i))))
                    i = None
                self.where[h] = i
        fills = {w: o for o, w in case["fills"]}
        for h, o in enumerate(objs, 1):
            if h in self.where:
                continue
            if o["k"] == "opening":      # of a window: the one the window fills
                w = next(w for w, x in fills.items() if x == h)
                c = [a[4] for a in self.rels("IFCRELFILLSELEMENT") if a[5] == ("ref", self.where[w])]
                self.where[h] = c[0][1] if len(c) == 1 else None
            elif o["k"] == "pset" and o["n"] == "StoreyProperties":
                s = next(b for a, b in case["props"] if a == h)
                c = [a[5][1] for a in self.rels("IFCRELDEFINESBYPROPERTIES") if ("ref", self.where.get(s)) in a[4][1]]
                c = [p for p in set(c) if any(self.text(self.at(x)[0]) == "Storey Height" for x in self.many(p, 4))]
                self.where[h] = c[0] if len(c) == 1 else None
            else:
                at = {"pset": 2}.get(o["k"], 2)
                c = [i for i in self.by.get(CLASS[o["k"]], []) if self.text(self.insts[i][1][at]) == o["n"]]
                self.where[h] = c[0] if len(c) == 1 else None
            if self.where[h] is None:
                self.faults.append((h, "is not found"))
        self.handle = {i: h for h, i in self.where.items() if i}

    def rels(self, kw):
        return [self.insts[i][1] for i in self.by.get(kw, [])]

    def at(self, ref):
        return self.insts[ref[1]][1]

    def kw(self, ref):
        return self.insts[ref[1]][0] if ref[0] == "ref" else None

    def many(self, i, n):
        return self.insts[i][1][n][1]

    def name(self, ref):
        """the handle of an instance, else its number"""
        return self.handle.get(ref[1], ref) if ref[0] == "ref" else ref

    @staticmethod
    def text(v):
        return v[1] if v[0] == "str" else v

    def pairs(self, kw, relating, related, keep=lambda f, a: True):
        out = []
        for a in self.rels(kw):
            if keep(self, a):
                for x in (a[related][1] if a[related][0] == "list" else [a[related]]):
                    out.append((self.name(a[relating]), self.name(x)))
        return out


def num(v):
    return float(v[1]) if v[0] in ("real", "int") else v


def direction(v):
    n = math.sqrt(sum(x * x for x in v))
    return ("dir",) + tuple(x / n for x in v) if n else ("zero",)


def eq(a, b):
    """equality with tolerance on reals"""
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if a and b and a[0] == "dir" == b[0]:
            return len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a[1:], b[1:]))
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


# -- placements and shapes of the file ------------------------------------------
def coords(f, ref):
    return tuple(num(x) for x in f.at(ref)[0][1]) if f.kw(ref) == "IFCCARTESIANPOINT" else ("no point", ref)


def direct(f, ref):
    return direction([num(x) for x in f.at(ref)[0][1]]) if f.kw(ref) == "IFCDIRECTION" else ("no direction", ref)


def axis(f, ref):
    """location of an axis placement that does not turn anything"""
    kw = f.kw(ref)
    if kw == "IFCAXIS2PLACEMENT3D":
        p, z, x = f.at(ref)
        if (z == NULL or eq(direct(f, z), direction([0, 0, 1]))) and (x == NULL or eq(direct(f, x), direction([1, 0, 0]))):
            return coords(f, p)
    if kw == "IFCAXIS2PLACEMENT2D":
        p, x = f.at(ref)
        if x == NULL or eq(direct(f, x), direction([1, 0])):
            return coords(f, p)
    return ("no plain position", ref)


def placement(f, i):
    p = f.insts[i][1][5]
    if f.kw(p) != "IFCLOCALPLACEMENT":
        return ("no placement", p)
    return ("placed", f.at(p)[0], axis(f, f.at(p)[1]))


def curve(f, ref):
    if f.kw(ref) == "IFCINDEXEDPOLYCURVE":
        pts, segments, _ = f.at(ref)
        if segments == NULL and f.kw(pts) in ("IFCCARTESIANPOINTLIST2D", "IFCCARTESIANPOINTLIST3D"):
            return tuple(tuple(num(x) for x in p[1]) for p in f.at(pts)[0][1])
    if f.kw(ref) == "IFCPOLYLINE":
        return tuple(coords(f, p) for p in f.at(ref)[0][1])
    return ("no line", ref)


def profile(f, ref):
    a = f.at(ref) if ref[0] == "ref" else None
    if f.kw(ref) == "IFCRECTANGLEPROFILEDEF" and a[0] == ("tok", ".AREA."):
        return ("rect", num(a[3]), num(a[4]), axis(f, a[2]) if a[2] != NULL else (0.0, 0.0))
    if f.kw(ref) == "IFCARBITRARYCLOSEDPROFILEDEF" and a[0] == ("tok", ".AREA."):
        return ("poly", curve(f, a[2]))
    return ("no profile", ref)


def rep(f, ref):
    """(context, identifier, type, item) of a representation"""
    ctx, ident, kind, items = f.at(ref)
    if len(items[1]) != 1:
        return ("items", items)
    it = items[1][0]
    a, kw = f.at(it), f.kw(it)
    if kw == "IFCEXTRUDEDAREASOLID":
        item = ("extrusion", profile(f, a[0]), axis(f, a[1]) if a[1] != NULL else (0.0, 0.0, 0.0), direct(f, a[2]), num(a[3]))
    elif kw == "IFCMAPPEDITEM":
        o, of = f.at(a[0])
        t = f.at(a[1])
        if f.kw(a[1]) == "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM":
            op = (direct(f, t[0]), direct(f, t[1]), direct(f, t[4]), coords(f, t[2]), num(t[3]), num(t[5]), num(t[6]))
        else:
            op = ("other operator", f.kw(a[1]))
        item = ("mapped", axis(f, o), op, rep(f, of))
    else:
        item = ("line", curve(f, it))
    return ("rep", f.kw(ctx), f.text(ident), f.text(kind), item)


def reps(f, i):
    s = f.insts[i][1][6]
    if f.kw(s) != "IFCPRODUCTDEFINITIONSHAPE":
        return [("no shape", s)] if s != NULL else []
    return sorted((rep(f, r) for r in f.at(s)[2][1]), key=lambda r: str(r[2]))


# -- the same of the specification ----------------------------------------------
def m(v):
    return tuple(x / U for x in v)


def profile_of(p):
    if p["k"] == "rect":
        return ("rect", p["x"] / U, p["y"] / U, (p["cx"] / U, p["cy"] / U))
    return ("poly", tuple(m(x) for x in p["pts"]))


def rep_of(r):
    it = r["it"]
    if it["k"] == "extrusion":
        item = ("extrusion", profile_of(it["p"]), (0.0, 0.0, 0.0), direction(it["dir"]), it["depth"] / U)
    elif it["k"] == "line":
        item = ("line", ((0.0, 0.0, 0.0), direction(it["along"])[1:]))
    else:
        item = ("mapped", m(it["o"]), (direction(it["x"]), direction(it["y"]), direction(it["z"]), m(it["t"]), 1.0, 1.0, 1.0), rep_of(it["of"]))
    return ("rep", "IFCGEOMETRICREPRESENTATIONSUBCONTEXT", r["id"], r["ty"], item)


def base(r):
    """what a representation is of, under all mappings"""
    while r[0] == "rep" and r[4][0] == "mapped":
        r = r[4][3]
    return r


def motion(r):
    """the mappings of a representation"""
    out = []
    while r[0] == "rep" and r[4][0] == "mapped":
        out.append((r[1:4], r[4][1:3]))
        r = r[4][3]
    return (r[2] if r[0] == "rep" else r, tuple(out))


# -- facts: (what, expected, found) per property ----------------------------------
def bag(what, exp, got):
    e, g = Counter(map(tuple, exp)), Counter(got)
    return [] if e == g else [(what, sorted((e - g).elements(), key=str), sorted((g - e).elements(), key=str))]


def labelled(case, f, kinds, get, exp, what):
    out = []
    for h, o in enumerate(case["objs"], 1):
        if o["k"] in kinds and f.where.get(h):
            e, g = exp(h, o), get(f.where[h])
            if not eq(e, g):
                out.append(("%s of %s %d %r" % (what, o["k"], h, o["n"]), e, g))
    return out


def found(case, f, kinds):
    return [("%s %d %r" % (case["objs"][h - 1]["k"], h, case["objs"][h - 1]["n"]), "an object", w) for h, w in f.faults if case["objs"][h - 1]["k"] in kinds]


def number(case, f, kinds):
    out = []
    for k in kinds:
        e = sum(o["k"] == k for o in case["objs"])
        g = len(f.by.get(CLASS[k], []))
        if e != g:
            out.append(("number of %s" % CLASS[k], e, g))
    return out


def named(case, f, kinds, at=2):
    return labelled(case, f, kinds, lambda i: f.text(f.insts[i][1][at]), lambda h, o: o["n"], "name")


def c18(case, f, r):
    out = []
    if r["again"] != "same":
        out.append(("the built file, loaded and written again", "same", r["again"]))
    refs = set()
    for i, (k, a) in f.insts.items():
        todo = list(a)
        while todo:
            v = todo.pop()
            if v[0] == "ref":
                refs.add((i, v[1]))
            elif v[0] == "list":
                todo += v[1]
            elif v[0] == "typed":
                todo.append(v[2])
    out += [("reference of #%s" % i, "an instance", "#" + t) for i, t in sorted(refs) if t not in f.insts]
    return out


def c19(case, f, r):
    ks = SPATIAL + ELEMENTS
    return (found(case, f, ks) + bag("aggregations", case["agg"], f.pairs("IFCRELAGGREGATES", 4, 5)) +
            bag("containments", case["cont"], f.pairs("IFCRELCONTAINEDINSPATIALSTRUCTURE", 5, 4)) + number(case, f, ks) + named(case, f, ks))


def c20(case, f, r):
    item = labelled(case, f, TYPES, lambda i: tuple(v[1] for v in f.insts[i][1][9:10 + (f.insts[i][0] == "IFCWINDOWTYPE")]),
                    lambda h, o: tuple(o["at"]["s"][1::2]), "items")
    return (found(case, f, TYPES) + bag("type relations", case["typed"], f.pairs("IFCRELDEFINESBYTYPE", 5, 4)) + item +
            number(case, f, TYPES) + named(case, f, TYPES))


def c21(case, f, r):
    obj = case["objs"]
    refs = lambda v: tuple(f.name(x) for x in v[1])
    matname = lambda ref: f.text(f.at(ref)[0]) if f.kw(ref) == "IFCMATERIAL" else ref
    ks = ("layer", "layerset", "usage", "constituent", "cset")
    return (found(case, f, ks) + number(case, f, ks) + found(case, f, ("material",)) + named(case, f, ("material",), 0) +
            bag("material relations", case["mat"], f.pairs("IFCRELASSOCIATESMATERIAL", 5, 4)) +
            labelled(case, f, ("layer",), lambda i: (lambda a: (matname(a[0]), num(a[1]), step.BOOLS.get(a[2][1], a[2][1]), f.text(a[3])))(f.insts[i][1]),
                     lambda h, o: (o["n"], o["at"]["v"][0] / U, {"T": ".TRUE.", "F": ".FALSE."}[o["at"]["s"][0]], o["at"]["s"][1]), "contents") +
            labelled(case, f, ("layerset",), lambda i: refs(f.insts[i][1][0]), lambda h, o: tuple(o["at"]["r"]), "layers") +
            labelled(case, f, ("usage",), lambda i: (lambda a: (f.name(a[0]), a[1][1], a[2][1], num(a[3])))(f.insts[i][1]),
                     lambda h, o: (o["at"]["r"][0], o["at"]["s"][1], o["at"]["s"][3], o["at"]["v"][0] / U), "contents") +
            labelled(case, f, ("constituent",), lambda i: (lambda a: (f.text(a[0]), matname(a[2])))(f.insts[i][1]),
                     lambda h, o: (o["at"]["s"][0], o["n"]), "contents") +
            labelled(case, f, ("cset",), lambda i: refs(f.insts[i][1][2]), lambda h, o: tuple(o["at"]["r"]), "constituents"))


def c22(case, f, r):
    return (found(case, f, ("opening", "window")) + number(case, f, ("opening", "window")) +
            bag("voids", case["voids"], f.pairs("IFCRELVOIDSELEMENT", 4, 5)) + bag("fills", case["fills"], f.pairs("IFCRELFILLSELEMENT", 4, 5)))


def c23(case, f, r):
    def exp(h, o):
        if o["rel"] == 0:
            return ("placed", NULL, m(o["pos"]))
        p = f.where.get(o["rel"])
        return ("placed", f.insts[p][1][5] if p else "the placement of %d" % o["rel"], m(o["pos"]))
    return labelled(case, f, SPATIAL + ELEMENTS + ("opening",), lambda i: placement(f, i), exp, "placement")


PRODUCTS = ELEMENTS + ("opening", "space")


def shapes(o):
    return sorted(map(rep_of, o["reps"]), key=lambda r: r[2])


def c24(case, f, r):
    # a wrong identifier of a mapped representation is not a matter of C24
    srt = lambda rs: tuple(sorted(map(base, rs), key=lambda r: str(r[2])))
    return labelled(case, f, PRODUCTS, lambda i: srt(reps(f, i)), lambda h, o: srt(shapes(o)), "shape")


def c25(case, f, r):
    srt = lambda rs: tuple(sorted(map(motion, rs), key=lambda r: str(r[0])))
    return labelled(case, f, PRODUCTS, lambda i: srt(reps(f, i)), lambda h, o: srt(shapes(o)), "mappings")


def c26(case, f, r):
    obj = case["objs"]

    def props(i):
        out = []
        for p in f.insts[i][1][4][1]:
            a = f.at(p)
            v = a[2]
            v = (v[1].upper(), num(v[2]) if v[2][0] == "real" else step.BOOLS.get(v[2][1], v[2][1])) if v[0] == "typed" else v
            out.append((f.text(a[0]), v, f.name(a[3]) if a[3] != NULL else 0))
        return tuple(out)

    def value(p):
        k = p["k"]
        return (VALUE[k], p["v"] / U if k in ("real", "thermal") else (".TRUE." if p["v"] == 1 else ".FALSE.") if k == "bool" else "text %d" % p["v"])
    keep = lambda f, a: f.kw(a[5]) == "IFCPROPERTYSET"
    return (found(case, f, ("pset",)) + number(case, f, ("pset",)) +
            bag("property relations", case["props"], f.pairs("IFCRELDEFINESBYPROPERTIES", 5, 4, keep)) +
            labelled(case, f, ("pset",), props, lambda h, o: tuple((p["n"], value(p), p["u"]) for p in o["at"]["p"]), "properties") +
            [x for x in named(case, f, ("pset",)) if "'StoreyProperties'" not in x[0]])


ROOTED = ("IFCREL", "IFCPROJECT", "IFCPROPERTYSET") + tuple(CLASS[k] for k in SPATIAL + ELEMENTS + TYPES + ("opening",))


def c27(case, f, r):
    out, who = [], case["who"]

    def want(what, e, g):
        if not eq(e, g):
            out.append((what, e, g))
    one = lambda kw: (lambda l: l[0] if len(l) == 1 else None)(f.by.get(kw, []))
    for kw in ("IFCPROJECT", "IFCOWNERHISTORY", "IFCGEOMETRICREPRESENTATIONCONTEXT", "IFCGEOMETRICREPRESENTATIONSUBCONTEXT", "IFCUNITASSIGNMENT"):
        want("number of %s" % kw, 1, len(f.by.get(kw, [])))
    if out:
        return out
    guids = [(i, f.text(a[0])) for i, (k, a) in f.insts.items() if k in ROOTED or (k.startswith("IFCREL") and k != "IFCRELAXATION")]
    for i, g in guids:
        if not (isinstance(g, str) and GUID.match(g)):
            out.append(("global id of #%s" % i, "a global id", g))
    n = Counter(g for i, g in guids)
    out += [("global id %s" % g, "used once", c) for g, c in n.items() if c > 1]
    pr = f.insts[one("IFCPROJECT")][1]
    oh, ctx = ("ref", one("IFCOWNERHISTORY")), ("ref", one("IFCGEOMETRICREPRESENTATIONCONTEXT"))
    want("name of the project", who["project"], f.text(pr[2]))
    want("contexts of the project", ("list", [ctx]), pr[7])
    want("unit assignment of the project", ("ref", one("IFCUNITASSIGNMENT")), pr[8])
    want("dimension of the context", ("int", "3"), f.at(ctx)[2])
    want("world of the context", (0.0, 0.0, 0.0), axis(f, f.at(ctx)[4]))
    want("parent of the sub-context", ctx, f.insts[one("IFCGEOMETRICREPRESENTATIONSUBCONTEXT")][1][6])
    units = sorted((f.kw(u), f.at(u)[1][1], f.at(u)[2], f.at(u)[3][1]) for u in f.insts[one("IFCUNITASSIGNMENT")][1][0][1])
    want("units", [("IFCSIUNIT", ".LENGTHUNIT.", NULL, ".METRE."), ("IFCSIUNIT", ".PLANEANGLEUNIT.", NULL, ".RADIAN."), ("IFCSIUNIT", ".TIMEUNIT.", NULL, ".SECOND.")], units)
    user, app = f.at(f.at(oh)[0]), f.at(f.at(oh)[1])
    want("application", (who["developer"], who["version"], who["application"], who["short"]),
         (f.text(f.at(app[0])[1]),) + tuple(f.text(x) for x in app[1:4]))
    want("owner", (who["person"], who["organization"]), (f.text(f.at(user[0])[2]), f.text(f.at(user[1])[1])))
    for k in ("project",) + SPATIAL + ELEMENTS + TYPES + ("opening",):
        for i in f.by.get(CLASS[k], []):
            want("owner history of %s #%s" % (CLASS[k], i), oh, f.insts[i][1][1])
    return out


JUDGE = dict(C18=c18, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23, C24=c24, C25=c25, C26=c26, C27=c27)


def judge(arg):
    prop, case, r = arg
    if r["r"] != "ok":
        return [("the program", "a built file", r.get("msg", r["r"]))]
    try:
        f = File(r["out"], case, r["ids"])
    except (step.Bad, ValueError) as e:
        return [("the built file", "readable", str(e))]
    try:
        return JUDGE[prop](case, f, r)
    except (KeyError, IndexError, TypeError, ValueError) as e:
        return [("the built file", "references that resolve to instances of the right kind", repr(e))]


def show(prog):
    def one(c):
        a = [repr(c["n"])] if c["n"] else []
        a += ["%s=%s" % (k, c[k]) for k in ("r", "v", "d", "pts", "s") if c[k]]
        a += ["transform=%s" % [(s["s"], s["v"]) for s in c["tp"]]] if c["tp"] else []
        a += ["properties=%s" % [(p["n"], p["k"], p["v"], p["u"]) for p in c["p"]]] if c["p"] else []
        return "%s(%s)" % (c["op"], ", ".join(a))
    return [one(c) for c in prog]


def run(ctx, prop):
    ctx.cover.update({"programs": 0, "calls": 0, "calls by kind": {}, "longest": 0})
    eat = lambda cases: execute(ctx, prop, cases)
    rounds, n, depth = (1, 100, 60) if ctx.quick else (12, 120, 90)
    ctx.tlc("BuilderRuns", cfg=CFG % ("FALSE", 22, 20), sink=eat)
    for k in range(rounds):
        if k == 0 or ctx.left() > 250:
            eat(ctx.tlc("BuilderRuns", cfg=CFG % ("TRUE", depth, "0, 20"), simulate=n, depth=depth + 20, seed=ctx.seed + 50 * k).cases)
        if k == 0 or ctx.left() > 250:      # long histories
            eat(ctx.tlc("BuilderRuns", cfg=CFG % ("TRUE", 300, "20"), simulate=4, depth=340, seed=ctx.seed + 50 * k + 7).cases)
    if not ctx.quick:
        # every two calls, as far as the time goes
        ctx.tlc("BuilderRuns", cfg=CFG % ("FALSE", 23, 20), timeout=2000, sink=lambda cases: ctx.left() > 60 and eat(cases))


def execute(ctx, prop, cases):
    for c in cases:
        k = ctx.cover["calls by kind"]
        for x in c["prog"]:
            k[x["op"]] = k.get(x["op"], 0) + 1
        ctx.cover["calls"] += len(c["prog"])
        ctx.cover["longest"] = max(ctx.cover["longest"], len(c["prog"]))
    ctx.cover["programs"] += len(cases)
    ctx.sample(" ; ".join(show(cases[-1]["prog"])[:30]))
    parts = list(chunks(cases, 40))
    res = ctx.run(({"op": "build", "cases": [{"prog": c["prog"], "who": c["who"]} for c in p]} for p in parts), timeout=200)
    jobs = []
    for p, r in zip(parts, res):
        if r["r"] == "ok":
            jobs += [(prop, c, x) for c, x in zip(p, r["list"])]
            continue
        for c in p:       # one of them brings the process down
            x = ctx.run([{"op": "build", "cases": [{"prog": c["prog"], "who": c["who"]}]}], timeout=60)[0]
            jobs.append((prop, c, x["list"][0] if x["r"] == "ok" else x))
    with Pool(8) as pool:
        verdicts = pool.map(judge, jobs, chunksize=20)
    for (_, c, r), v in zip(jobs, verdicts):
        ctx.traces += 1
        ctx.case(repr(show(c["prog"])))
        if v:
            what, e, g = v[0]
            ctx.violation("%s: expected %s, found %s (program of %d calls ending in %s)" % (what, e, g, len(c["prog"]), c["prog"][-6]["op"] if len(c["prog"]) > 5 else "-"),
                          {"program": show(c["prog"]), "who": c["who"], "differences": [list(map(str, x)) for x in v[:20]], "built": r.get("out")})


def check(prop):
    return lambda ctx: run(ctx, prop)
