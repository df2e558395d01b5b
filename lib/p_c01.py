LEVEL = "exploration"


def check(ctx):
    ctx.rule = ("one case = a generated history of up to 28 operations (28 operation kinds) on three optionals of one kind, or of up to 40 "
                "container operations; executed on tiny optionals and on std::optional, all observations compared after each step. "
                "Non-trivial: the history engages an empty optional, empties an engaged one and applies an operation to two "
                "optionals with different state (containers: elements are moved/erased/sorted with both engaged and empty ones present).")
    plan = {
        "A": ["g17", "g23n", "c20n"],
        "B": ["g17", "g20fast", "g32", "c23"],
        "C": ["g17", "c23n", "g32n"],
        "D": ["g20", "c20n", "g32"],
        "E": ["g23", "c17"],
    }
    cases = 1500
    if ctx.thorough:
        every = ["g17", "g20", "g23n", "g20fast", "g17noub", "g20nobit", "g17nomem", "g32", "g32n", "c17", "c23n", "casan", "gasan"]
        plan = {g: every for g in plan}
        cases = 20000
    jobs = [{"src": "hist.cpp", "cfg": c, "defs": [f"GRP_{g}", "HIST=1"], "cases": cases} for g, cs in plan.items() for c in cs]
    cont = {0: ["g20", "g32"], 1: ["c20", "g17n"], 2: ["g17"]}
    if ctx.thorough:
        cont = {k: ["g17", "g20", "g23n", "g20fast", "g20noub", "g32", "c17", "c23n", "casan"] for k in cont}
    jobs = [{"src": "cont.cpp", "cfg": c, "defs": [f"PART={k}"], "cases": cases // 2} for k, cs in cont.items() for c in cs] + jobs
    ctx.harness(jobs)
