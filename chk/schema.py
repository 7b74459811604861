"""C01, C05, C12: instances composed by spec/Compose.tla, loaded, inspected and written by the real code."""
from . import step
from .files import file, opaque, chunks

NOPQ = 12


def compose(ctx, maxdev, ents="AllEnts", wild=0):
    """every instance of at most maxdev deviations, and wild * 8 with attributes drawn at random"""
    conf = lambda maxdev: "SPECIFICATION Spec\nCONSTANTS MaxDev = %d\n NOpaque = %d\n Ents <- %s\nINVARIANTS TypeOK Emit\nCHECK_DEADLOCK FALSE\n" % (
        maxdev, NOPQ, ents)
    r = ctx.tlc("Compose1", cfg=conf(maxdev))
    if wild:
        r.cases += ctx.tlc("Compose1", cfg=conf(99), simulate=wild, depth=40).cases
    seen, out = set(), []
    for c in r.cases:
        if c["text"] not in seen:
            seen.add(c["text"])
            out.append(c)
    return out


def packs(cases, size):
    base = [(str(i), opaque(i)) for i in range(1, NOPQ + 1)]
    for ch in chunks(cases, size):
        ids = [str(100 + 3 * i) for i in range(len(ch))]
        yield ch, ids, base, file(base + [(i, c["text"]) for i, c in zip(ids, ch)])


def culprits(ctx, ch, want):
    """loads every instance of a pack on its own"""
    ps = list(packs(ch, 1))
    return list(zip(ps, ctx.run([{"op": "load", "text": p[3], "want": want} for p in ps])))


def execute(ctx, cases, want, size=100):
    """yields (case, id, file text, result or None, parsed output or None)"""
    ps = list(packs(cases, size))
    for p, r in zip(ps, ctx.run([{"op": "load", "text": p[3], "want": want} for p in ps])):
        todo = [(p, r)]
        if r["r"] != "ok" and len(p[0]) > 1:
            todo = culprits(ctx, p[0], want)
        for (ch, ids, base, text), res in todo:
            yield ch, ids, base, text, res


def check_args(case, got):
    kw, args = got
    if kw != case["kw"]:
        return "keyword %s expected, got %s" % (case["kw"], kw)
    if len(args) != len(case["args"]):
        return "%d attributes expected, got %d" % (len(case["args"]), len(args))
    for n, e, g in zip(case["names"], case["args"], args):
        d = step.same(e, g, n)
        if d:
            return d
    return None


def apostrophes(ctx, cases):
    """instances with a doubled apostrophe in a text attribute"""
    import re
    first = {}
    for c in cases:
        if c["ty"] not in first and re.search(r"'s\d+'", c["text"]):
            first[c["ty"]] = re.sub(r"'s\d+'", "'it''s'", c["text"], count=1)
    base = [(str(i), opaque(i)) for i in range(1, NOPQ + 1)]
    reqs = [{"op": "load", "text": file(base + [("100", t)]), "want": "proj"} for t in first.values()]
    for (ty, t), r in zip(first.items(), ctx.run(reqs)):
        ctx.case(t)
        held = [x for x in r.get("proj", []) if x[0] == "100"]
        if r["r"] != "ok" or len(held) > 1:
            ctx.violation("%s with a doubled apostrophe is not loaded: %s" % (ty, r["r"]), t)
        elif not held:
            ctx.violation("%s with a doubled apostrophe in a text is not available as that type: %s" % (ty, t), t, key="doubled-apostrophe")
        elif held[0][1] != ty or "'it''s'" not in held[0][2].values():
            ctx.violation("%s with a doubled apostrophe is found as %s" % (t, held), t)
    ctx.cover["instances with a doubled apostrophe"] = len(first)


def c01(ctx):
    cases = compose(ctx, 2, wild=400 if ctx.quick else 25000)
    ctx.sample(cases[0]["text"])
    ctx.sample(cases[len(cases) // 2]["text"])
    bad_types = {}
    for ch, ids, base, text, r in execute(ctx, cases, "again"):
        if r["r"] != "ok":
            c = ch[0]
            if len(ch) == 1:
                report(ctx, bad_types, c, "well-formed file is not loaded (%s %s)" % (r["r"], r.get("msg", "")), text)
            else:
                ctx.violation("well-formed file is not loaded", {"text": text})
            continue
        if r["again"]["r"] != "ok" or not r["again"]["same"]:
            for p, q in (culprits(ctx, ch, "again") if len(ch) > 1 else [((ch, ids, base, text), r)]):
                if q["r"] == "ok" and (q["again"]["r"] != "ok" or not q["again"]["same"]):
                    report(ctx, bad_types, p[0][0], "written text is not reproduced when loaded and written again: %r" % q["again"],
                           p[3])
        try:
            insts = dict(step.sections(r["out"])[1])
        except Exception as e:
            ctx.violation("written file is not well-formed: %s" % e, {"text": text, "out": r["out"]})
            continue
        exp_ids = {i for i, _ in base} | set(ids)
        if set(insts) != exp_ids:
            ctx.violation("written instance numbers differ: %s" % sorted(set(insts) ^ exp_ids), {"text": text, "out": r["out"]})
        for i, c in zip(ids, ch):
            ctx.traces += 1
            ctx.case(c["text"])
            try:
                d = check_args(c, step.parse_inst(insts[i])) if i in insts else "missing"
            except step.Bad as e:
                d = "not well-formed: %s" % e
            if d:
                report(ctx, bad_types, c, "%s written as %s: %s" % (c["text"], insts.get(i), d), c["text"])
    ctx.cover["instances"] = len(cases)
    ctx.cover["entities"] = len({c["ty"] for c in cases})


def report(ctx, seen, case, what, replay):
    """at most two violations per entity and kind"""
    k = (case["ty"], what.split(":")[-1][:30] if ":" in what else "")
    seen[k] = seen.get(k, 0) + 1
    if seen[k] <= 2:
        ctx.violation("%s: %s" % (case["ty"], what), replay)


def c05(ctx):
    import json, os
    cases = compose(ctx, 2, wild=400 if ctx.quick else 25000)
    cases = [c for c in cases if c["ty"] != "MaterialProperties"]      # not nameable outside the crate
    ctx.assumptions.append("MaterialProperties is not exported; attributes that are not public are not projected")
    ctx.sample({"instance": cases[7]["text"], "expected": dict(zip(cases[7]["names"], cases[7]["args"]))})
    bad = {}
    attrs = set()
    for ch, ids, base, text, r in execute(ctx, cases, "proj"):
        if r["r"] != "ok":
            report(ctx, bad, ch[0], "well-formed file is not loaded (%s)" % r["r"], text)
            continue
        byid = {}
        for i, ty, f, got in r["proj"]:
            byid.setdefault(i, []).append((ty, f, got))
        for i, _ in base:
            if i in byid:
                ctx.violation("opaque instance #%s is found as %s" % (i, byid[i][0][0]), text)
        for i, c in zip(ids, ch):
            ctx.traces += 1
            ctx.case(c["text"])
            p = byid.get(i, [])
            if len(p) != 1 or p[0][0] != c["ty"]:
                report(ctx, bad, c, "%s is found as %s" % (c["text"], [x[0] for x in p]), c["text"])
                continue
            ty, f, got = p[0]
            if not got:
                report(ctx, bad, c, "lookup by number and search by type return different objects", c["text"])
            exp = dict(zip(c["names"], c["args"]))
            for n, v in f.items():
                attrs.add((ty, n))
                try:
                    d = step.same(exp[n], step.parse_value(v), n)
                except step.Bad as e:
                    d = "%s: %r is no value: %s" % (n, v, e)
                if d:
                    report(ctx, bad, c, "%s: attribute %s" % (c["text"], d), c["text"])
    ctx.cover["instances"] = len(cases)
    ctx.cover["attributes projected"] = len(attrs)
    apostrophes(ctx, cases)
