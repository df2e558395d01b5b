LEVEL = "exploration"


def check(ctx):
    ctx.rule = ("death: one case = a generated history of up to 5 operations followed by one misuse in a child process: storing the sentinel (its bytes are taken from an empty "
                "optional, for every kind with in-place storage) by a generated route, dereferencing an empty optional in a generated value category, or copying/moving a payload "
                "that thereby becomes the sentinel. The child has to end through assert without NDEBUG and to survive with NDEBUG. valid: histories of valid operations in builds "
                "with active assertions, compared with std::optional. Non-trivial: the misuse was executed (valid: as for C01).")
    plan = {"A": ["g17", "c20n"], "B": ["g17", "c20", "g17n", "g32"], "C": ["g20", "c17", "g20n"], "D": ["g17", "c20", "g32n"], "E": ["g20", "g17n"],
            "S": ["g17", "c20", "g20n", "g17noub", "g32", "g17o"]}
    valid = {"A": ["g17o"], "B": ["g17o"], "C": ["c32"], "D": ["g17o", "c20"], "E": ["c20"]}
    cases, vc = 90, 600
    if ctx.thorough:
        every = ["g17", "g20", "g23", "g17o", "g17n", "g23n", "c17", "c20", "c20n", "g32", "c32", "g32n", "g17noub", "g20nobitmem", "g17nomem"]
        plan = {g: every for g in plan}
        valid = {g: ["g17", "g17o", "g23", "c17", "c23", "c32", "g32", "g17noub", "g17nomem", "g20nobitmem", "casan"] for g in valid}
        cases, vc = 1500, 20000
    jobs = [{"src": "death.cpp", "cfg": c, "defs": [f"GRP_{g}"], "cases": cases} for g, cs in plan.items() for c in cs]
    jobs += [{"src": "hist.cpp", "cfg": c, "defs": [f"GRP_{g}", "HIST=1"], "cases": vc} for g, cs in valid.items() for c in cs]
    ctx.harness(jobs)
