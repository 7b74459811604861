"""C10, C11, C12: texts, numbers and enumeration items."""
from fractions import Fraction
import re
from . import step
from .files import file, opaque, chunks
from .loader import cfg, norm_line

BASE = [(str(i), opaque(i)) for i in range(1, 4)]


def dedup(cases, key):
    return list({c[key]: c for c in cases}.values())


# -- C10 ----------------------------------------------------------------------
def strings(ctx, src, n, sim, depth):
    c = lambda k, walk: "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Src = \"%s\"\n Walk = %s\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n" % (k, src, walk)
    cases = ctx.tlc("Strings", cfg=c(n, "FALSE")).cases
    cases += ctx.tlc("Strings", cfg=c(depth, "TRUE"), simulate=sim, depth=depth + 1).cases
    cases += ctx.tlc("Strings", cfg=c(400, "TRUE"), simulate=1, depth=401, seed=ctx.seed + 3).cases
    return dedup(cases, "raw")


def quoted(text):
    """the raw contents of the texts in an instance"""
    return [m.group(1) for m in re.finditer(r"'((?:[^']|'')*)'", text)]


def c10(ctx):
    n, sim, depth = (2, 200, 20) if ctx.quick else (3, 800, 40)
    c10_file(ctx, strings(ctx, "file", n, sim, depth))
    c10_api(ctx, strings(ctx, "api", n, sim, depth))


def c10_file(ctx, cases):
    ctx.cover["texts in files"] = len(cases)
    packs = list(chunks(cases, 50))
    texts = []
    for ch in packs:
        f = []
        for i, c in enumerate(ch):
            q = c["raw"]
            f += [(str(100 + 10 * i + k), t % {"q": q} if "%(" in t else t) for k, t in enumerate(
                ["IFCMATERIAL('" + q + "','" + q + "','" + q + "')",
                 "IFCORGANIZATION('" + q + "','" + q + "','" + q + "',$,$)",
                 "IFCPERSON('i','" + q + "',$,('" + q + "','m','" + q + "'),$,$,$,$)",
                 "IFCPROPERTYSINGLEVALUE('n',$,IFCLABEL('" + q + "'),$)",
                 "IFCPROPERTYSINGLEVALUE('n',$,IFCIDENTIFIER('" + q + "'),$)"])]
        texts.append(file(f))
    bad = 0
    for ch, t, r in zip(packs, texts, ctx.run([{"op": "load", "text": t, "want": "texts again proj"} for t in texts])):
        if r["r"] != "ok" or r["again"]["r"] != "ok" or not r["again"]["same"]:
            ctx.violation("file with texts is not loaded or not reproduced", {"text": t, "result": r})
            continue
        opq = {i for i, _ in r["opaque"]}
        by = {}
        for k, v in r["texts"]:
            by.setdefault(k, []).append(v)
        # instances come in ascending order, three material texts per case etc.
        insts = dict(step.sections(r["out"])[1])
        for i, c in enumerate(ch):
            ctx.traces += 1
            ctx.case(c["raw"])
            d = None
            if any(str(100 + 10 * i + k) in opq for k in range(5)):
                d = "instance with text %r becomes an unsupported one" % c["raw"]
            if d is None and not opq:
                got = {k: by[k][i] for k in ("Material.name", "Material.description", "Material.category", "Organization.id", "Organization.name",
                                             "Organization.description", "LabelValue", "IdentifierValue", "Person.family_name")}
                got["Person.middle_names"] = by["Person.middle_names"][3 * i]
                got["Person.middle_names[2]"] = by["Person.middle_names"][3 * i + 2]
                for k, v in got.items():
                    if v != c["val"]:
                        d = "%s: %r read as %r, %r expected" % (k, c["raw"], v, c["val"])
            if d is None:
                for k in range(5):
                    for q in quoted(insts[str(100 + 10 * i + k)]):
                        if q not in ("i", "n", "m", c["wr"]):
                            d = "text %r is written as %r, %r expected" % (c["raw"], q, c["wr"])
            if d:
                bad += 1
                if bad <= 8:
                    ctx.violation(d, {"text": t})
    ctx.sample(cases[-1])


def c10_api(ctx, cases):
    ctx.cover["texts through the interface"] = len(cases)
    bad = 0
    for c, r in zip(cases, ctx.run([{"op": "texts", "s": c["val"]} for c in cases])):
        ctx.traces += 1
        ctx.case("api " + c["raw"])
        d = judge_api(c, r)
        if d:
            bad += 1
            if bad <= 8:
                ctx.violation(d, {"given": c["val"], "result": r})
    ctx.sample(cases[-1])


def judge_api(c, r):
    if r["r"] != "ok":
        return "text %r through the interface gives %s" % (c["val"], r["r"])
    for k, v in r["given"]:
        if v not in (c["val"], "m"):
            return "%s: given %r, held as %r" % (k, c["val"], v)
    try:
        insts = step.sections(r["out"])[1]
    except Exception as e:
        return "text %r: written file is not well-formed: %s" % (c["val"], e)
    n = 0
    for _, t in insts:
        for q in quoted(t):
            n += q == c["wr"]
            if q not in (c["wr"], "m", "n"):
                return "text %r is written as %r" % (c["val"], q)
    if n < 11:
        return "text %r is written only %d times" % (c["val"], n)
    if r["again"] != "ok":
        return "text %r: written file is not loaded (%s)" % (c["val"], r["again"])
    back = [x for x in r["back"] if c["loadable"] or x[0] == "header name"]
    given = [x for x in r["given"] if c["loadable"] or x[0] == "header name"]
    if back != given:
        return "text %r reads back as %r" % (c["val"], [b for b, g in zip(back, given) if b != g][:2])
    return None


# -- C11 ----------------------------------------------------------------------
def numbers(ctx):
    def c(digits, mi, mf, exps, least=0, walk="FALSE"):
        return "SPECIFICATION Spec\nCONSTANTS Digits <- %s\n MaxInt = %d\n MaxFrac = %d\n Exps <- %s\n Least = %d\n Walk = %s\nINVARIANTS NormOK Emit\nCHECK_DEADLOCK FALSE\n" % (digits, mi, mf, exps, least, walk)
    if ctx.quick:
        cases = ctx.tlc("Numbers", cfg=c("SomeDigits", 2, 3, "ExpsSmall")).cases
        walks = [("AllDigits", 6, 12, 3, 250), ("AllDigits", 17, 17, 12, 250)]
    else:
        cases = ctx.tlc("Numbers", cfg=c("MoreDigits", 3, 2, "ExpsWide")).cases
        walks = [("AllDigits", 18, 20, least, 2000) for least in (3, 8, 14, 22)] + [("EdgeDigits", 12, 14, 8, 2000)]
    for digits, mi, mf, least, num in walks:
        cases += ctx.tlc("Numbers", cfg=c(digits, mi, mf, "ExpsWide", least, "TRUE"), simulate=num, depth=mi + mf + 5, seed=ctx.seed + least).cases
    return dedup(cases, "lit")


def value(c):
    return (-1 if c["neg"] else 1) * Fraction(int(c["sig"] or "0")) * Fraction(10) ** c["p"]


REAL = re.compile(r"-?\d+\.\d*(E[+-]?\d+)?")


def check_real(c, got, written):
    """got: ("real", text) as written, or the text of a float"""
    if written:
        if got[0] != "real" or not REAL.fullmatch(got[1]):
            return "%s is written as %r, which is no STEP real" % (c["lit"], got[1])
        got = got[1]
    e = value(c)
    g = Fraction(got)
    if len(c["sig"]) <= 15:
        if written and g != e:
            return "%s is written as %s" % (c["lit"], got)
        if not written and float(got) != float(c["lit"]):
            return "%s is held as %s" % (c["lit"], got)
    elif abs(g - e) > abs(e) * Fraction(1, 10 ** 14):
        return "%s becomes %s" % (c["lit"], got)
    return None


def c11(ctx):
    cases = [c for c in numbers(ctx)]
    ctx.cover["literals"] = len(cases)
    ctx.cover["literals with more than 15 digits"] = sum(len(c["sig"]) > 15 for c in cases)
    ctx.sample(cases[-1])
    c11_file(ctx, cases)
    c11_api(ctx, cases)
    c11_int(ctx)


# which literals of (x, y, z) the instances contain, in order
CARRIERS = [("IFCCARTESIANPOINT((%s,%s,%s))", "xyz"), ("IFCCARTESIANPOINT((%s,%s))", "xy"), ("IFCDIRECTION((%s,%s,%s))", "zxy"),
            ("IFCDIRECTION((%s,%s))", "yx"), ("IFCMATERIALLAYER($,%s,.F.,$,$,$,$)", "x"), ("IFCPROPERTYSINGLEVALUE('n',$,IFCREAL(%s),$)", "y"),
            ("IFCPROPERTYSINGLEVALUE('n',$,IFCTHERMALTRANSMITTANCEMEASURE(%s),$)", "z"),
            ("IFCCARTESIANPOINTLIST2D(((%s,%s),(%s,%s)),$)", "xyzx"), ("IFCCARTESIANPOINTLIST3D(((%s,%s,%s),(%s,%s,%s)),$)", "zyxxyz"),
            ("IFCRECTANGLEPROFILEDEF(.AREA.,$,$,%s,%s)", "zy")]
HELD = {0, 1, 4, 5, 6}      # carriers whose values the harness reports


def reals(v, out):
    if v[0] in ("real", "int"):
        out.append(v)
    elif v[0] == "list":
        for x in v[1]:
            reals(x, out)
    elif v[0] == "typed":
        reals(v[2], out)
    return out


def c11_file(ctx, cases):
    trip = [(cases[i], cases[(i * 7 + 1) % len(cases)], cases[(i * 3 + 2) % len(cases)]) for i in range(len(cases))]
    packs = list(chunks(trip, 40))
    texts = []
    for ch in packs:
        f = []
        for i, t in enumerate(ch):
            m = dict(zip("xyz", t))
            f += [(str(1000 + 20 * i + k), pat % tuple(m[a]["lit"] for a in names)) for k, (pat, names) in enumerate(CARRIERS)]
        texts.append(file(f))
    bad = 0
    for ch, t, r in zip(packs, texts, ctx.run([{"op": "load", "text": t, "want": "numbers again proj"} for t in texts])):
        if r["r"] != "ok" or r["again"]["r"] != "ok" or not (r["again"]["same"] or same_numbers(r["out"], r["again"]["out"])):
            ctx.violation("file with numbers is not loaded or not reproduced", {"text": t, "again": r.get("again")})
            continue
        insts, held = dict(step.sections(r["out"])[1]), dict(r["numbers"])
        opq = {i for i, _ in r["opaque"]}
        for i, tr in enumerate(ch):
            ctx.traces += 1
            ctx.case(tr[0]["lit"])
            m = dict(zip("xyz", tr))
            for k, (pat, names) in enumerate(CARRIERS):
                n = str(1000 + 20 * i + k)
                d = None
                if n in opq:
                    d = "becomes an unsupported instance"
                else:
                    try:
                        got = reals(("list", step.parse_inst(insts[n])[1]), [])
                    except (step.Bad, KeyError):
                        got, d = [], "written as %r" % insts.get(n)
                    if not d and len(got) != len(names):
                        d = "written with %d numbers" % len(got)
                    for a, g in zip(names, got):
                        d = d or check_real(m[a], g, True)
                    if k in HELD:
                        if len(held.get(n, [])) != len(names):
                            d = d or "held as %r" % held.get(n)
                        for a, g in zip(names, held.get(n, [])):
                            d = d or check_real(m[a], g, False)
                if d:
                    bad += 1
                    if bad <= 6:
                        ctx.violation("%s: %s (%s)" % (pat % tuple(m[a]["lit"] for a in names), d, insts.get(n)), {"text": t})


def same_numbers(a, b):
    """a number may change from the exponent form to the plain one"""
    x, y = step.sections(a)[1], step.sections(b)[1]
    return len(x) == len(y) and all(
        i == j and [Fraction(n[1]) for n in reals(("list", step.parse_inst(s)[1]), [])] == [Fraction(n[1]) for n in reals(("list", step.parse_inst(t)[1]), [])]
        for (i, s), (j, t) in zip(x, y))


API = ["xy", "xyz", "xyzx", "xyzzxy", "x", "y", "xy", "xz"]


def c11_api(ctx, cases):
    trip = [(cases[i], cases[(i * 5 + 1) % len(cases)], cases[(i * 11 + 2) % len(cases)]) for i in range(len(cases))]
    bad = 0
    for tr, r in zip(trip, ctx.run([{"op": "numbers", "v": [c["lit"] for c in t]} for t in trip])):
        ctx.traces += 1
        d = None
        if r["r"] != "ok" or r["again"] != "ok" or not (r["out2"] == r["out"] or same_numbers(r["out"], r["out2"])):
            d = "numbers %s: written file is not loaded or not reproduced" % [c["lit"] for c in tr]
        else:
            m = dict(zip("xyz", tr))
            for names, (_, txt) in zip(API, step.sections(r["out"])[1]):
                got = [g for g in reals(("list", step.parse_inst(txt)[1]), []) if g[0] == "real"]
                if len(got) != len(names):
                    d = d or "%s: %d numbers expected" % (txt, len(names))
                for a, g in zip(names, got):
                    d = d or check_real(m[a], g, True)
        if d:
            bad += 1
            if bad <= 6:
                ctx.violation("through the interface: " + d, {"v": [c["lit"] for c in tr], "result": r})


INTS = ["0", "1", "-1", "9", "10", "-10", "2147483647", "-2147483648", "2147483648", "9007199254740993", "-9007199254740993",
        "9223372036854775807", "-9223372036854775808", "1000000000000000000"]


def c11_int(ctx):
    f = []
    for i, x in enumerate(INTS):
        y, z = INTS[i - 1], INTS[i - 2]
        f.append((str(100 + 10 * i), "IFCDERIVEDUNITELEMENT(#1,%s)" % x))
        f.append((str(101 + 10 * i), "IFCDIMENSIONALEXPONENTS(%s,%s,%s,%s,%s,%s,%s)" % (x, y, z, z, y, x, y)))
        f.append((str(102 + 10 * i), "IFCSITE('0000000000000000000000',$,$,$,$,$,$,$,.ELEMENT.,(%s,%s,%s),(%s,%s),$,$,$)" % (x, y, z, z, x)))
    t = file(BASE + f)
    r = ctx.run([{"op": "load", "text": t, "want": "proj again"}])[0]
    ok = r["r"] == "ok" and r["again"]["r"] == "ok"
    insts = dict(step.sections(r["out"])[1]) if ok else {}
    for n, txt in f:
        ctx.traces += 1
        ctx.case(txt)
        if not ok or insts.get(n) != txt or n in dict(r["opaque"]):
            got = None if not ok else insts.get(n)
            wide = txt.startswith("IFCDIM") and any(abs(int(v)) >= 2 ** 31 - 1 for v in re.findall(r"-?\d+", txt))   # held as 32 bits; else kept as it is
            if got is None or (n in dict(r["opaque"]) and not wide) or step.parse_inst(got) != step.parse_inst(txt):
                ctx.violation("integers of %s become %s" % (txt, got), {"text": t})
    ctx.cover["integer instances"] = len(f)


# -- C12 ----------------------------------------------------------------------
def c12(ctx):
    r = ctx.tlc("Enums", cfg="SPECIFICATION Spec\nCONSTANTS Deep = %s\nINVARIANTS KnownIff Emit Table\nCHECK_DEADLOCK FALSE\n" % ("FALSE" if ctx.quick else "TRUE"))
    table = [c for c in r.cases if "table" in c][0]["table"]
    cases = [c for c in r.cases if "table" not in c]
    impl = {k: [list(x) for x in v] for k, v in ctx.run([{"op": "enums"}])[0]["table"]}
    for e in table:
        if e["enum"] in impl:
            for want, got in zip(e["items"], impl[e["enum"]]):
                ctx.traces += 1
                if want != got:
                    ctx.violation("%s::%s is written %s, %s expected" % (e["enum"], want[0], got[1], want[1]), {"enum": e["enum"], "want": want, "got": got})
    ctx.cover["values of the interface"] = sum(len(v) for v in impl.values())
    known = [c for c in cases if c["canon"]]
    unknown = [c for c in cases if not c["canon"]]
    ctx.cover["known items"], ctx.cover["unknown items"] = len(known), len(unknown)
    ctx.sample(known[0])
    ctx.sample(unknown[-1])
    bad = {}
    packs = list(chunks(known, 60)) + list(chunks(unknown, 60))
    texts = [file(BASE + [(str(10 + i), c["text"]) for i, c in enumerate(ch)]) for ch in packs]
    res = ctx.run([{"op": "load", "text": t, "want": "proj again"} for t in texts])
    todo = []
    for ch, t, r in zip(packs, texts, res):
        if r["r"] != "ok":
            todo += ch                      # find the culprit
            continue
        bad_in(ctx, ch, t, r, bad)
    texts = [file(BASE + [("10", c["text"])]) for c in todo]
    for c, t, r in zip(todo, texts, ctx.run([{"op": "load", "text": t, "want": "proj again"} for t in texts])):
        if r["r"] != "ok":
            note(ctx, bad, c, "file is not loaded (%s)" % r["r"], t)
        else:
            bad_in(ctx, [c], t, r, bad)


def note(ctx, bad, c, d, t):
    k = (c["ty"], c["name"], bool(c["canon"]))
    bad[k] = bad.get(k, 0) + 1
    if bad[k] <= 1:
        ctx.violation("%s.%s = %s: %s" % (c["ty"], c["name"], c["item"], d), {"text": t})


def bad_in(ctx, ch, t, r, bad):
    opq = dict(r["opaque"])
    typed = {i: (ty, f) for i, ty, f, _ in r["proj"]}
    insts = dict(step.sections(r["out"])[1])
    for i, c in enumerate(ch):
        ctx.traces += 1
        ctx.case(c["text"])
        n = str(10 + i)
        d = None
        if c["canon"]:
            if n in opq:
                d = "known item is not supported"
            else:
                kw, args = step.parse_inst(insts[n])
                d = step.same({"t": "tok", "c": c["canon"]}, args[c["j"] - 1], "written")
                if d is None and n in typed and c["name"] in typed[n][1] and typed[n][1][c["name"]] != c["canon"]:
                    d = "held as %r" % typed[n][1][c["name"]]
        elif opq.get(n) != c["text"]:
            d = "unknown item becomes %r" % (insts.get(n),)
        if d is None and not (r["again"]["r"] == "ok" and r["again"]["same"]):
            d = "written file is not reproduced"
        if d:
            note(ctx, bad, c, d, t)
