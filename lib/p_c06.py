LEVEL = "fault_enumeration"


def check(ctx):
    ctx.rule = ("one case = a generated history on three optionals of instrumented payloads in which generated steps throw at their 1st to 6th "
                "throwing point (constructors, copies, moves, assignments, conversions, swaps, comparisons, callbacks), executed on tiny and "
                "std::optional: the same exception must arrive, has_value(), values and live objects must agree after it and for the rest of the "
                "history. Non-trivial: at least one exception was thrown.")
    plan = {"A": ["g17"], "D": ["g17"], "E": ["g17", "g20", "g23n", "c23n", "g32n", "c17", "gasan", "g17noub", "g20n", "g17nomem"]}
    cases = 4000
    if ctx.thorough:
        every = ["g17", "g20", "g23n", "g17n", "g17noub", "g20nobit", "g17nomem", "g32", "g32n", "c17", "c23n", "casan", "gasan"]
        plan = {g: every for g in plan}
        cases = 60000
    ctx.harness([{"src": "hist.cpp", "cfg": c, "defs": [f"GRP_{g}", "HIST=6"], "cases": cases if g == "E" else cases // 8} for g, cs in plan.items() for c in cs])
