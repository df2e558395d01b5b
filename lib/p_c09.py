LEVEL = "exploration"


def check(ctx):
    ctx.rule = ("one case = one optional kind x one monadic operation x generated engagement, value category (const/non-const lvalue/rvalue), value and "
                "callback behaviour (result engaged/empty, throwing, mutating the payload, moving from it) with recorded calls, argument addresses and "
                "payload events; the result, its type and the source afterwards are compared with the standard's definition. Non-trivial: the callback "
                "has to be called, or the source has to be returned/copied/moved.")
    cfgs = ["g17", "g23", "c20", "g32n", "g17noub"]
    cases = 1500
    if ctx.thorough:
        cfgs = ["g17", "g20", "g23", "g20n", "c17", "c20", "c23n", "g32n", "g32", "g17noub", "g20nobit", "g17nomem", "casan", "gasan"]
        cases = 40000
    ctx.harness([{"src": "monad.cpp", "cfg": c, "defs": [f"PART={p}"], "cases": cases} for p in range(3) for c in cfgs])
