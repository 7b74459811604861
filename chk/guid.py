"""C13: global ids."""
from . import step
from .files import file, opaque, chunks
from .values import dedup

CARRIERS = ["IFCPROPERTYSET('%s',$,'n',$,(#1))", "IFCRELAGGREGATES('%s',$,$,$,#1,(#2))",
            "IFCDOOR('%s',$,$,$,$,$,$,$,$,$,$,$,$)", "IFCSPACETYPE('%s',$,$,$,$,$,$,$,$,.SPACE.,$)",
            "IFCPROJECT('%s',$,'p',$,$,$,$,(#1),#3)"]
BASE = [(str(i), opaque(i)) for i in range(1, 4)]


def c13(ctx):
    c = "SPECIFICATION Spec\nCONSTANTS Depth = %d\n Walk = %s\nINVARIANTS BothWays Emit\nCHECK_DEADLOCK FALSE\n"
    cases = ctx.tlc("Guid", cfg=c % (1, "FALSE")).cases
    cases += ctx.tlc("Guid", cfg=c % (30, "TRUE"), simulate=10 if ctx.quick else 300, depth=31).cases
    cases = dedup(cases, "form")
    ctx.cover["ids"] = len(cases)
    ctx.sample(cases[-1])
    values(ctx, cases)
    files(ctx, cases)
    bad(ctx, ctx.tlc("GuidBad", cfg="SPECIFICATION Spec\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n").cases)
    fresh(ctx, 3000 if ctx.quick else 100000)


def values(ctx, cases):
    n = 0
    for ch, r in zip(chunks(cases, 500), ctx.run([{"op": "guids", "hex": [c["hex"] for c in ch]} for ch in chunks(cases, 500)])):
        if r["r"] != "ok":
            ctx.violation("128-bit values cannot be written: %s" % r, {"hex": [c["hex"] for c in ch]})
            continue
        for c, got in zip(ch, r["v"]):
            ctx.traces += 1
            ctx.case(c["form"])
            if got != [c["form"], "'" + c["form"] + "'", c["hex"]]:
                n += 1
                if n < 5:
                    ctx.violation("value %s has the form %s, %s expected" % (c["hex"], got, c["form"]), c)


def files(ctx, cases):
    n = 0
    packs = list(chunks(cases, 100))
    texts = [file(BASE + [(str(10 + 10 * i + k), pat % c["form"]) for i, c in enumerate(ch) for k, pat in enumerate(CARRIERS)]) for ch in packs]
    for ch, t, r in zip(packs, texts, ctx.run([{"op": "guidfile", "text": t} for t in texts])):
        if r["r"] != "ok":
            ctx.violation("file with valid global ids is not loaded: %s" % r, {"text": t})
            continue
        held, out = dict(r["v"]), dict(step.sections(r["out"])[1])
        for i, c in enumerate(ch):
            for k, pat in enumerate(CARRIERS):
                ctx.traces += 1
                no = str(10 + 10 * i + k)
                if held.get(no) != c["hex"] or out.get(no) != pat % c["form"]:
                    n += 1
                    if n < 5:
                        ctx.violation("%s is held as %s and written as %s, %s expected" % (pat % c["form"], held.get(no), out.get(no), c["hex"]), {"text": t})


def bad(ctx, cases):
    cases = [c for c in cases if c["kind"] != "valid"]
    ctx.cover["texts that are no ids"] = sum(c["kind"] != "fine" for c in cases)
    packs = list(chunks(cases, 100))
    texts = [file(BASE + [(str(10 + 10 * i + k), pat % c["text"]) for i, c in enumerate(ch) for k, pat in enumerate(CARRIERS)]) for ch in packs]
    n = 0
    for ch, t, r in zip(packs, texts, ctx.run([{"op": "guidfile", "text": t} for t in texts])):
        if r["r"] != "ok":
            ctx.violation("file with texts in place of global ids is not loaded: %s" % r, {"text": t})
            continue
        held, out = dict(r["v"]), dict(step.sections(r["out"])[1])
        for i, c in enumerate(ch):
            ctx.case(c["text"])
            for k, pat in enumerate(CARRIERS):
                ctx.traces += 1
                no = str(10 + 10 * i + k)
                d = None
                if (no in held) != (c["kind"] == "fine"):
                    d = "is%s taken for a global id" % ("" if no in held else " not")
                elif out.get(no) != pat % c["text"]:
                    d = "is written as %s" % out.get(no)
                if d:
                    n += 1
                    if n < 5:
                        ctx.violation("%s %s" % (pat % c["text"], d), {"text": t})


ALPHABET = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_$"


def fresh(ctx, n):
    seen = {}
    for r in ctx.run([{"op": "newids", "n": n}] * 8):
        if r["r"] != "ok":
            ctx.violation("new ids: %s" % r, {})
            continue
        for form, hx in r["v"]:
            ctx.traces += 1
            v = 0
            for ch in form:
                v = v * 64 + ALPHABET.find(ch)
            if len(form) != 22 or form[0] not in "0123" or any(ch not in ALPHABET for ch in form) or "%032x" % v != hx:
                ctx.violation("new id %s (%s) is not valid" % (form, hx), {"id": form})
            if form in seen:
                ctx.violation("new id %s is not new" % form, {"id": form})
            seen[form] = 1
    ctx.cover["new ids"] = len(seen)
