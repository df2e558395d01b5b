import os
import vp
LEVEL = "exploration"


def check(ctx):
    ctx.rule = ("one case = a bit pattern (random, special value, or near the reserved pattern: 1-2 bits, one byte or one half different) x one of "
                "18 ways in x one of 12 ways out, for direct payloads (cv variants) and for flag members in six struct layouts; the bits must "
                "come back unchanged and non-empty. The reserved pattern is read from the bytes of an empty optional and must itself have the "
                "documented form. Additionally all 2^32 float patterns (and all 2^32 addresses on x86) are enumerated; the enumeration counts in "
                "'exhaustive_patterns', not in evaluations. Non-trivial: the bits are not all zero.")
    plan = {0: ["g17", "g20fast", "g32", "c20n", "g32n", "gasan20", "g20nobit"], 1: ["g17", "g20fast", "c20", "g32"], 2: ["g20", "c20fast", "g32n", "g17n"]}
    cases = 6000
    if ctx.thorough:
        plan = {p: ["g17", "g20", "g20fast", "g23n", "g32", "g32n", "c17", "c20fast", "c20n", "c32", "casan", "gasan", "g17noub", "g20nobit", "g17nomem"] for p in plan}
        cases = 200000
    jobs = [{"src": "bits.cpp", "cfg": c, "defs": [f"PART={p}"], "cases": cases} for p, cs in plan.items() for c in cs]
    ctx.harness(jobs)
    if ctx.violations:
        return
    cfgs = ["g20fast", "g32n"] + (["c20n", "g17", "c20fast"] if ctx.thorough else [])
    exes = {}
    for c in cfgs:
        exe = os.path.join(ctx.dir, "fa-" + c)
        ok, log = ctx.compile(c, os.path.join(vp.VERIF, "t", "float_all.cpp"), exe)
        if not ok:
            ctx.violation({"kind": "build", "job": {"src": "float_all.cpp", "cfg": c}, "log": log[:8000]}, f"float_all/{c} does not compile")
            return
        exes[c] = exe
    N = 64

    def one(a):
        c, k = a
        if ctx.stop.is_set():
            return 0
        rc, out, err = ctx.run_cmd([exes[c], str(k), str(N)], timeout=900)
        if rc == 0 and out.startswith("OK"):
            return int(out.split()[1])
        if rc in (124, -9):
            raise vp.HarnessError(f"float_all: rc {rc}")
        src = open(os.path.join(vp.VERIF, "t", "float_all.cpp")).read()
        ctx.violation({"kind": "program", "source": src, "cfg": c, "expect": "run", "args": [str(k), str(N)]}, f"exhaustive/{c}: {out.strip()[-300:]} {err[-300:]} (status {rc})")
        return 0
    total = sum(ctx.parallel(one, [(c, k) for c in cfgs for k in range(N)]))
    ctx.coverage["exhaustive_patterns"] = total
    ctx.coverage["exhaustive"] = False
