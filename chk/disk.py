"""C32: models written to and loaded from files, from spec/DiskRuns.tla."""
from .files import chunks

CFG = "SPECIFICATION Spec\nCONSTANTS Walk = %s\n Depth = %d\nINVARIANTS RoundTrip Emit\nPROPERTIES FailedLoadKeeps\nCHECK_DEADLOCK FALSE\n"
CODES = {"<NL>": "\n", "<CR>": "\r", "<TAB>": "\t", "<BOM>": "\ufeff", "<NUL>": "\0", "<EMOJI>": "\U0001F600", "<NBSP>": "\u00a0"}


def real(x):
    if x == "long":
        return "0123456789" * 2000
    for c, t in CODES.items():
        x = x.replace(c, t)
    return x


def c32(ctx):
    cases = ctx.tlc("DiskRuns", cfg=CFG % ("FALSE", 4 if ctx.quick else 5)).cases
    cases += ctx.tlc("DiskRuns", cfg=(CFG % ("TRUE", 24 if ctx.quick else 60)).replace("PROPERTIES FailedLoadKeeps\n", ""), simulate=60 if ctx.quick else 2000, depth=64).cases
    for part in chunks(cases, 4000):
        judge(ctx, part)


def judge(ctx, part):
    reqs = [{"op": "disk", "hist": [dict(e["o"], x=real(e["o"]["x"])) for e in c["hist"]]} for c in part]
    for c, q, r in zip(part, reqs, ctx.run(reqs)):
        ctx.case([e["o"] for e in c["hist"]])
        ctx.traces += 1
        d = None if r["r"] == "ok" else "gives %s" % r["r"]
        for n, e in enumerate(c["hist"]):
            if d:
                break
            ok, names = r["steps"][n]
            ctx.count("%s %s" % (e["o"]["op"], "done" if e["ok"] else "refused"))
            want = sorted(map(real, e["mem"]))
            if ok != e["ok"]:
                d = "loading %s %s" % (e["file"], "succeeds" if ok else "fails")
            elif sorted(names) != want:
                d = "the model has the materials %.200r, %.200r expected" % (sorted(names), want)
            if d:
                d = "step %d (%s): %s" % (n + 1, e["o"], d)
        if d:
            ctx.violation(d, {"hist": c["hist"]})
        elif len(c["hist"]) > 6:
            ctx.sample([e["o"] for e in c["hist"]], 2)
