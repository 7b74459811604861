#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property; exit 0 held, 1 violated, 2 tool error."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from chk import core, registry, step


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    try:
        if not a.no_build:
            core.build()
        fn, rule = registry.CHECKS[a.prop][:2]
        ctx = core.Ctx(a.prop, a.tier, a.seed)
        try:
            fn(ctx)
        except (step.Bad, KeyError, IndexError, TypeError) as e:
            # what the specification gives is the same in every run, so this is about what the real code gave
            if not ctx.evals:
                raise
            ctx.violation("the real code gave something that cannot be read as a result: %r" % e, traceback.format_exc())
        rc = core.finish(ctx, rule)
        print("%s %s: %d violations, %d states, %d traces, %.1f s" % (
            a.prop, a.tier, len(ctx.violations), ctx.states, ctx.traces, __import__("time").time() - ctx.t0))
        return rc
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2


sys.exit(main())
