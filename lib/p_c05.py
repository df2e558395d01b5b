LEVEL = "fault_enumeration"


def check(ctx):
    ctx.rule = ("one case = a generated history of up to 24 operations on three optionals of instrumented payloads (every construction, destruction, "
                "copy, move, assignment, swap and conversion is recorded against a registry of live objects), executed on tiny and std::optional; "
                "the recorded payload operations of each step have to be identical, no object may be used outside its lifetime or relocated, and "
                "nothing may be left at the end (payloads, heap). A quarter of the histories inject exceptions. Non-trivial: the history engages, "
                "empties and combines optionals in different states (or, with faults, an exception was thrown).")
    plan = {"A": ["g17", "c20n"], "B": ["g17"], "C": ["g20"], "D": ["g17", "c20", "g20nobitmem"], "E": ["g17", "g23", "c23n", "g20n", "g32", "g17noub", "gasan20"]}
    cases = 3000
    if ctx.thorough:
        every = ["g17", "g20", "g23n", "g17n", "g17noub", "g20nobit", "g17nomem", "g32", "g32n", "c17", "c23n", "casan", "gasan"]
        plan = {g: every for g in plan}
        cases = 40000
    ctx.harness([{"src": "hist.cpp", "cfg": c, "defs": [f"GRP_{g}", "HIST=5"], "cases": cases * (2 if g == "E" else 1) // 2} for g, cs in plan.items() for c in cs])
