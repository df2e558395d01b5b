LEVEL = "exploration"


def check(ctx):
    ctx.rule = ("hash/*: one case = two optionals of one kind brought into generated states by random histories in memory with random old content; "
                "hashes compared with the payload's std::hash, with a fresh empty optional and under equality. table/*: one case = up to 40 "
                "operations on unordered_set/map keyed by the optional, mirrored on std::optional. Non-trivial: every hash case; table cases with "
                "a successful find/erase and at least one empty key.")
    cfgs = {0: ["g17", "g20n", "c20", "g32", "g17noub"], 1: ["g17", "c20n"]}
    cases = 3000
    if ctx.thorough:
        every = ["g17", "g20", "g23n", "g20n", "g17noub", "g20nobit", "g17nomem", "g32", "g32n", "c17", "c23n", "casan", "gasan"]
        cfgs = {0: every, 1: every}
        cases = 60000
    ctx.harness([{"src": "hash.cpp", "cfg": c, "defs": [f"PART={p}"], "cases": cases} for p in (1, 0) for c in cfgs[p]])
