"""C03, C06: files generated by spec/Loader*.tla are loaded by the real code; verdict and table are compared."""
from . import step
from .files import file, HEADER, FOOTER, chunks


def cfg(consts, inv):
    return "SPECIFICATION Spec\nCONSTANTS " + "\n ".join(consts) + "\nINVARIANTS " + inv + "\nCHECK_DEADLOCK FALSE\n"


def check_table(ctx, case, r, text, seen):
    """the written file holds exactly the expected instances in ascending order with their values"""
    try:
        got = step.sections(r["out"])[1]
    except Exception as e:
        return "written file is not well-formed: %s" % e
    ids = [i for i, _ in got]
    exp = [t["id"] for t in case["table"]]
    if ids != exp:
        return "instances %s expected, written: %s" % (exp, ids)
    for t, (i, txt) in zip(case["table"], got):
        if t["ty"] == "Dummy":
            if txt != t["text"]:
                return "opaque instance #%s %r written as %r" % (i, t["text"], txt)
            continue
        kw, args = step.parse_inst(txt)
        if kw != t["kw"] or len(args) != len(t["args"]):
            return "#%s: %s expected, written: %s" % (i, t["kw"], txt)
        for k, (e, g) in enumerate(zip(t["args"], args)):
            d = step.same(e, g, "attribute %d" % (k + 1))
            if d:
                return "#%s: %s: %s" % (i, txt, d)
    return None


def c06(ctx):
    # the complete matrix reference attribute x target type
    r = ctx.tlc("LoaderRefs", cfg=cfg(["Part = 0", "Parts = 1"], "TableOK VerdictOK Emit"))
    verdicts(ctx, [(c["v"], c["f"]) for c in r.cases])
    ctx.cover["matrix"] = len(r.cases)
    # random graphs
    n = 150 if ctx.quick else 6000
    g = ctx.tlc("LoaderGraph", cfg=cfg(["MaxInst = 7", "BadIn = 30"], "LoadInv Emit"), simulate=n, depth=80)
    verdicts(ctx, [(c["verdict"], c["file"]) for c in g.cases])
    ctx.cover["graphs"] = len(g.cases)


def verdicts(ctx, cases):
    reqs = [{"op": "load", "text": file(f), "want": "none"} for _, f in cases]
    n = {}
    for (v, f), q, r in zip(cases, reqs, ctx.run(reqs)):
        ctx.traces += 1
        ctx.case(q["text"])
        ctx.count(v)
        exp = "ok" if v == "accepted" else "err"
        if r["r"] != exp:
            subj = [t for i, t in f if i == "50"] or [f[0][1]]
            k = (subj[0].split("(")[0], exp)
            n[k] = n.get(k, 0) + 1
            if n[k] <= 2:
                ctx.violation("file must be %s, but loading gives %s (%s): %s" % (v, r["r"], r.get("msg", "")[:120],
                              "; ".join("#%s=%s" % tuple(x) for x in f)), {"text": q["text"], "expected": v})
    ctx.sample({"verdict": cases[len(cases) // 3][0], "file": cases[len(cases) // 3][1]})


def c03(ctx):
    pool = "PoolQuick" if ctx.quick else "PoolDeep"
    r = ctx.tlc("LoaderPerm", cfg=cfg(["Pool <- " + pool], "TableOK VerdictOK AlwaysAccepted Emit"))
    n = 150 if ctx.quick else 4000
    g = ctx.tlc("LoaderGraph", cfg=cfg(["MaxInst = 9", "BadIn = 1000000"], "LoadInv Emit"), simulate=n, depth=80)
    ctx.cover["permutations"] = len(r.cases)
    ctx.cover["graphs"] = len(g.cases)
    tables(ctx, r.cases)
    tables(ctx, [c for c in g.cases if c["verdict"] == "accepted"])
    bulk(ctx)


def bulk(ctx, want="out"):
    """files of many instances: every one is held under its number"""
    c = "SPECIFICATION Spec\nCONSTANTS Sizes <- %s\n Prime = 104729\nINVARIANTS Distinct Emit\nCHECK_DEADLOCK FALSE\n"
    cases = ctx.tlc("Bulk", cfg=c % ("QuickSizes" if ctx.quick else "DeepSizes")).cases
    for c, r in zip(cases, ctx.run([{"op": "load", "text": file(c["file"]), "want": want} for c in cases])):
        ctx.traces += 1
        ctx.case([c["size"], c["stride"]])
        replay = {"size": c["size"], "stride": c["stride"], "module": "Bulk"}
        if r["r"] != "ok":
            ctx.violation("a file of %d instances is not loaded: %s" % (c["size"], r.get("msg", r["r"])), replay)
            continue
        exp = sorted((i, t) for i, t in c["file"])
        got = [(int(i), t) for i, t in step.sections(r["out"])[1]]
        if exp != got:
            miss = [x for x in exp if x not in set(got)][:3]
            ctx.violation("of %d instances %d are written; missing or different: %s" % (len(exp), len(got), miss or "the order"), replay)
    ctx.cover["instances in large files"] = sum(c["size"] for c in cases)


def tables(ctx, cases):
    reqs = [{"op": "load", "text": file(c["file"]), "want": "out"} for c in cases]
    bad = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        ctx.traces += 1
        ctx.case(q["text"])
        if r["r"] != "ok":
            d = "well-formed file is not loaded (%s %s)" % (r["r"], r.get("msg", "")[:100])
        else:
            d = check_table(ctx, c, r, q["text"], None)
        if d:
            bad += 1
            if bad <= 10:
                ctx.violation(d, {"text": q["text"], "out": r.get("out")})
    ctx.sample({"file": cases[len(cases) // 2]["file"]})


def foreign(ctx):
    """supported attributes under keywords that are not supported"""
    cases = ctx.tlc("Foreign", cfg="SPECIFICATION Spec\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n").cases
    ctx.cover["unsupported entities with attributes of supported ones"] = len(cases)
    ctx.sample(cases[0]["text"])
    bad = 0
    packs = list(chunks(cases, 150))
    texts = [file([("1", "IFCOPAQUE(1)")] + [(str(10 + i), c["text"]) for i, c in enumerate(ch)]) for ch in packs]
    for ch, t, r in zip(packs, texts, ctx.run([{"op": "load", "text": t, "want": "proj again"} for t in texts])):
        out = dict(step.sections(r["out"])[1]) if r["r"] == "ok" else {}
        opq = dict(r["opaque"]) if r["r"] == "ok" else {}
        for i, c in enumerate(ch):
            ctx.traces += 1
            ctx.case(c["text"])
            n = str(10 + i)
            d = None
            if r["r"] != "ok":
                d = "file with unsupported instances is not loaded (%s %s)" % (r["r"], r.get("msg", "")[:80])
            elif opq.get(n) != c["text"]:
                d = "unsupported instance %r is held as %r" % (c["text"], opq.get(n, [p[:3] for p in r["proj"] if p[0] == n]))
            elif out.get(n) != c["text"].strip():
                d = "unsupported instance %r is written as %r" % (c["text"], out.get(n))
            if d:
                bad += 1
                if bad <= 5:
                    ctx.violation(d, {"text": t})


def grown(ctx, want, keep=lambda c: True):
    """instances of spec/Deep.tla, loaded"""
    cases = [c for c in ctx.tlc("Deep", cfg=cfg(["MaxLog = %d" % (14 if ctx.quick else 18)], "Even Emit")).cases if keep(c)]
    texts = [file([("1", "IFCOPAQUE(1)"), ("2", c["text"]), ("3", "IFCMONETARYUNIT('EUR')")]) for c in cases]
    ctx.cover["instances of repeated pieces"] = len(cases)
    for c, t, r in zip(cases, texts, ctx.run([{"op": "load", "text": t, "want": want, "lean": True} for t in texts], timeout=60)):
        ctx.traces += 1
        ctx.case((c["name"], c["times"]))
        yield c, t, r


def c02(ctx):
    if ctx.quick:
        r = ctx.tlc("Opaque", cfg=cfg(["MaxPieces = 2", "MaxDepth = 3"], "Balanced Emit"))
        cases = r.cases
        sim = ctx.tlc("Opaque", cfg=cfg(["MaxPieces = 8", "MaxDepth = 4"], "Balanced Emit"), simulate=150, depth=30).cases
    else:
        cases = ctx.tlc("Opaque", cfg=cfg(["MaxPieces = 3", "MaxDepth = 2"], "Balanced Emit")).cases
        sim = ctx.tlc("Opaque", cfg=cfg(["MaxPieces = 12", "MaxDepth = 5"], "Balanced Emit"), simulate=8000, depth=50).cases
    mal = ctx.tlc("Malformed", cfg="SPECIFICATION Spec\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n").cases
    ctx.cover["opaque texts"] = len(cases) + len(sim)
    ctx.cover["malformed instances"] = len(mal)
    foreign(ctx)
    for c, t, r in grown(ctx, "again", lambda c: c["kept"]):
        got = dict(step.sections(r["out"])[1]).get("2") if r["r"] == "ok" else r["r"]
        if got != c["text"] or r["again"]["r"] != "ok" or not r["again"]["same"]:
            ctx.violation("unsupported instance of %s, %d times, is written as %s" % (c["name"], c["times"], str(got)[:100]), {"text": t[:3000], "out": str(r.get("out"))[:3000]})
    ctx.sample(sim[0]["text"])
    ctx.sample(mal[40]["text"])
    wall = "IFCWALL('3vB2YO$MX4xv5uCqZZG05x',#20,'w;',$,$,$,$,$,$)"
    money = "IFCMONETARYUNIT('EUR')"
    files = [(c["text"], c["file"]) for c in cases + sim]
    # malformed instances refer to #1
    files += [(c["text"], [["1", "IFCOPAQUE(1)"], ["10", wall], ["20", c["text"]], ["30", money]]) for c in mal]
    reqs = [{"op": "load", "text": file(f), "want": "proj again"} for _, f in files]
    bad = 0
    for (text, f), q, r in zip(files, reqs, ctx.run(reqs)):
        ctx.traces += 1
        ctx.case(text)
        d = None
        if r["r"] != "ok":
            d = "file with an unsupported instance is not loaded (%s %s)" % (r["r"], r.get("msg", "")[:80])
        else:
            opq = dict(r["opaque"])
            typed = {i: (ty, fl) for i, ty, fl, _ in r["proj"]}
            line = "\n#20= %s;\n" % text
            if opq.get("20") != text:
                d = "instance %r is held as %r" % (text, opq.get("20", typed.get("20")))
            elif set(opq) != {"20"} | ({"1"} if len(f) == 4 else set()):
                d = "opaque instances: %r" % sorted(opq)
            elif norm_line(r["out"], "20") != text:
                d = "instance %r is written as %r" % (text, norm_line(r["out"], "20"))
            elif set(typed) != {"10", "30"} or typed["10"][0] != "Wall" or typed["30"][0] != "MonetaryUnit":
                d = "neighbours of %r are loaded as %r" % (text, typed)
            elif norm_line(r["out"], "10") != wall or norm_line(r["out"], "30") != money:
                d = "neighbours of %r are not written as they were" % text
            elif r["again"]["r"] != "ok" or not r["again"]["same"]:
                d = "written text is not reproduced: %r" % text
        if d:
            bad += 1
            if bad <= 10:
                ctx.violation(d, {"text": q["text"], "out": r.get("out")})


def norm_line(out, i):
    """the text of instance i in a written file"""
    try:
        return dict(step.sections(out)[1]).get(i)
    except Exception as e:
        return "unreadable: %s" % e


def c04(ctx):
    if ctx.quick:
        r = ctx.tlc("Layout", cfg=cfg(["MaxDev = 1", "Frame = TRUE"], "DevOK Emit"))
        cases = r.cases
    else:
        cases = ctx.tlc("Layout", cfg=cfg(["MaxDev = 1", "Frame = TRUE"], "DevOK Emit")).cases
        cases += ctx.tlc("Layout", cfg=cfg(["MaxDev = 60", "Frame = TRUE"], "DevOK Emit"), simulate=3000, depth=200).cases
    ctx.cover["files"] = len(cases)
    ctx.sample(cases[-1]["text"])
    res = ctx.run([{"op": "load", "text": c["text"], "want": "proj header"} for c in cases])
    plain = {}
    for c, r in zip(cases, res):
        if c["plain"]:
            plain[c["ty"], c["base"]] = r
            if r["r"] != "ok":
                ctx.violation("plain file is not loaded", c["text"])
    bad = {}
    for c, r in zip(cases, res):
        p = plain[c["ty"], c["base"]]
        ctx.traces += 1
        ctx.case(c["text"])
        d = None
        if r["r"] != "ok":
            d = "file with additional layout is not loaded (%s %s)" % (r["r"], r.get("msg", "")[:60])
        elif r["opaque"] != p["opaque"]:
            d = "instances become opaque with additional layout: %r" % [x for x in r["opaque"] if x not in p["opaque"]]
        elif r["proj"] != p["proj"] or r["out"] != p["out"] or r["header"] != p["header"]:
            d = "additional layout changes what is loaded"
        if d:
            bad[c["ty"]] = bad.get(c["ty"], 0) + 1
            if bad[c["ty"]] <= 1:
                ctx.violation("%s: %s" % (c["ty"], d), {"text": c["text"], "out": r.get("out")})
    ctx.cover["types with deviations"] = len(bad)


def c08(ctx):
    r = ctx.tlc("Broken", cfg=cfg(["MaxDrop = %d" % (2 if ctx.quick else 3)], "OnlyIntact Emit"))
    chunks = {c["k"]: c["chunks"] for c in r.cases if c["mode"] == "whole"}
    whole = {k: "".join(w) for k, w in chunks.items()}
    cases = []
    for c in r.cases:
        w, m = whole[c["k"]], c["mode"]
        if m == "cut":
            w = w[:len(w) - c["lost"]]
        elif m == "drop":
            w = "".join(x for i, x in enumerate(chunks[c["k"]], 1) if i not in c["gone"])
        cases.append((c, c["s"] + "\n" + w if m == "before" else w + c["s"]))
    ctx.cover["base files"] = len(whole)
    for m in ("cut", "drop", "before", "after"):
        ctx.cover[m] = sum(1 for c, _ in cases if c["mode"] == m)
    ctx.sample(cases[-1][1])
    n = {}
    for (c, t), r in zip(cases, ctx.run([{"op": "load", "text": t, "want": "none"} for _, t in cases])):
        ctx.traces += 1
        ctx.case(t)
        exp = "ok" if c["v"] == "accepted" else "err"
        if r["r"] != exp:
            n[c["mode"]] = n.get(c["mode"], 0) + 1
            if n[c["mode"]] <= 3:
                ctx.violation("%s file must be %s, loading gives %s: %s" % (
                    {"whole": "intact", "cut": "truncated", "drop": "incomplete"}.get(c["mode"], "surrounded"), c["v"], r["r"],
                    t[-60:] if c["mode"] in ("cut", "after") else t[:400]), {"text": t})
