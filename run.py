#!/usr/bin/env python3
"""run.py <property> | run.py replay <file>. The tier comes from VERIF_TIER (quick/thorough), the seed from VERIF_SEED."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vp


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return importlib.import_module("replay").replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("p_" + prop.lower())
    ctx = vp.Ctx(prop, tier, seed)
    try:
        mod.check(ctx)
    except vp.HarnessError as e:
        print("CHECK ERROR:", e, file=sys.stderr)
        if not ctx.violations:
            ctx.coverage["error"] = str(e)[:500]
            ctx.finish(mod.LEVEL)
            return 2
    return ctx.finish(mod.LEVEL)


if __name__ == "__main__":
    sys.exit(main())
