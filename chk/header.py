"""C09: headers composed by spec/Header.tla."""
import re
from . import step
from .files import FOOTER
from .loader import cfg

DATA = "DATA;\n#1=IFCOPAQUE(1);\n"


def c09(ctx):
    inv = "InRange Emit"
    grid = "small" if ctx.quick else "full"
    cases = ctx.tlc("Header", cfg=cfg(["MaxDev = 1", 'Grid = "%s"' % grid], inv)).cases
    cases += ctx.tlc("Header", cfg=cfg(["MaxDev = 2", 'Grid = "none"'], inv)).cases
    if not ctx.quick:
        cases += ctx.tlc("Header", cfg=cfg(["MaxDev = 10", 'Grid = "none"'], inv), simulate=3000, depth=12).cases
    seen, todo = set(), []
    for c in cases:
        if c["text"] not in seen:
            seen.add(c["text"])
            todo.append(c)
    ctx.cover["headers"] = len(todo)
    bad = {}
    for c, r in zip(todo, ctx.run([{"op": "load", "text": c["text"] + DATA + FOOTER, "want": "header again"} for c in todo])):
        ctx.traces += 1
        ctx.case(c["text"])
        ctx.count("accepted" if c["ok"] else "rejected")
        d = judge(c, r)
        if d:
            k = d[:30]
            bad[k] = bad.get(k, 0) + 1
            if bad[k] <= 3:
                ctx.violation("%s: %s" % (d, c["text"][20:].replace("\n", " ")[:300]), {"text": c["text"] + DATA + FOOTER, "result": r})
    ctx.sample(todo[-1])


def judge(c, r):
    if not c["ok"]:
        return None if r["r"] == "err" else "header that cannot be interpreted gives %s" % r["r"]
    if r["r"] != "ok":
        return "header is not accepted (%s)" % r["r"]
    v, lv, nm, tm, au, og, pr, sy, at, sc = c["exp"]
    exp = {"views": v, "level": lv, "name": nm, "time": tm["day"] * 86400 + tm["sec"], "authors": au, "orgs": og,
           "prep": pr, "sys": sy, "auth": at, "schemas": sc}
    for k, e in exp.items():
        if r["header"][k] != e:
            return "%s: %r expected, loaded as %r" % (k, e, r["header"][k])
    a = r["again"]
    if a["r"] != "ok":
        return "written header is not loaded again (%s)" % a["r"]
    if a["header"] != r["header"]:
        return "written header is loaded differently: %r" % {k: x for k, x in a["header"].items() if x != r["header"][k]}
    # the written text, read independently
    got = {}
    for kw in ("FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA"):
        try:
            p = step.P(r["out"], r["out"].index(kw) + len(kw))
            p.ws()
            got[kw] = p.items()
        except Exception as e:
            return "written header is not well-formed: %s: %s" % (kw, e)
    fn = got["FILE_NAME"]
    w = {k: fn[i][1] for k, i in (("name", 0), ("prep", 4), ("sys", 5), ("auth", 6))}
    w["authors"], w["orgs"] = texts(fn[2]), texts(fn[3])
    w["schemas"] = texts(got["FILE_SCHEMA"][0])
    w["level"] = got["FILE_DESCRIPTION"][1][1]
    exp = {k: [step.decode(x) for x in e] if isinstance(e, list) and k != "views" else step.decode(e) if isinstance(e, str) else e for k, e in exp.items()}
    for k, e in w.items():
        if e != exp[k]:
            return "%s: %r expected, written as %r" % (k, exp[k], e)
    if not re.fullmatch(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(Z|[+-]\d\d:\d\d)?", fn[1][1]):
        return "time: written as %r" % fn[1][1]
    return None


def texts(v):
    return [x[1] for x in v[1]]
