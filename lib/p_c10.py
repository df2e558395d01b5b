LEVEL = "exploration"


def check(ctx):
    ctx.rule = ("acc/<kind>: one case = up to 15 generated operations on two optionals at generated addresses; after each, all ten accessor forms must "
                "refer to one object inside the optional, correctly aligned, at the address it had when constructed, with the model's value; empty ones "
                "throw bad_optional_access from all value() overloads; declared types compared with std::optional's. value_or/<kind>: payload "
                "operations compared with std::optional. Non-trivial: an engaged state and (an empty state or a write through an accessor).")
    cfgs = {"A": ["g17", "c20n", "g32"], "B": ["g17", "g32n", "c20"], "C": ["g20", "c17"], "D": ["g17", "c20n", "g32", "g17nomem"], "E": ["g17", "c23n", "g17noub"]}
    cases = 800
    if ctx.thorough:
        every = ["g17", "g20n", "g23n", "g32", "g32n", "c17", "c20n", "c23n", "g17noub", "g20nobitmem", "g17nomem", "casan", "gasan"]
        cfgs = {g: every for g in "ABCDE"}
        cases = 20000
    jobs = []
    for g in "EDCAB":
        for c in cfgs[g]:
            jobs.append({"src": "acc.cpp", "cfg": c, "defs": [f"GRP_{g}"], "cases": cases})
    ctx.harness(jobs)
