LEVEL = "exploration"


def check(ctx):
    ctx.rule = ("one case = one of ~200 operand pairs (optional kinds and payload types, std::optional, value, nullopt; both orders) x engagement x "
                "values (NaN, -0.0, sentinels' neighbours included); each of the six operators and <=> is compared with the standard's defining "
                "expression evaluated on plain payloads, including which payload operator is called and how often (payloads with six mutually "
                "inconsistent operators and non-bool results). Non-trivial: both operands engaged, or neither operand is nullopt.")
    cases = 1000
    cfgs = ["g17", "g20", "c20", "g23n", "c17", "g32n"]
    if ctx.thorough:
        cfgs += ["g20fast", "c23n", "g17noub", "g20nobit", "g17nomem", "g32", "casan", "gasan"]
        cfgs.remove("g20fast")  # NaN comparisons are meaningless with -ffast-math
        cases = 20000
    ctx.harness([{"src": "cmp.cpp", "cfg": c, "defs": [f"PART={p}"], "cases": cases} for p in range(4) for c in cfgs])
