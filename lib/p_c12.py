LEVEL = "fault_enumeration"


def check(ctx):
    ctx.rule = ("one case = a generated history of up to 24 operations (two thirds with exceptions injected at a drawn throwing point of each step) on "
                "three optionals whose flag manipulator checks the protocol at every call: the flag is an object of a type of its own that owns heap "
                "memory and is registered, as are the payloads. Whole payload, part of the payload, first/last/const/throwing member, optional_inplace, "
                "optional_aip, specialization by enable_if and class-type sentinels with destructors. Non-trivial: an exception was thrown, or "
                "optionals were filled, emptied and combined in different states.")
    cfgs = ["g17", "g20", "c20n", "g17noub", "g32"]
    cases = 2500
    if ctx.thorough:
        cfgs = ["g17", "g20", "g23n", "g17n", "g17noub", "g20nobit", "g17nomem", "g32", "g32n", "c17", "c20", "c23n", "casan", "gasan", "gasan20"]
        cases = 60000
    ctx.harness([{"src": "manip.cpp", "cfg": c, "defs": [f"PART={p}"], "cases": cases} for p in range(3) for c in cfgs])
