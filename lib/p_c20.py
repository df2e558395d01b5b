import os
import vp

LEVEL = "exploration"
PROBE = """#include <thread>
int main() { int a = 0; std::thread t([&] { a = 1; }); t.join(); return a - 1; }
"""


def check(ctx):
    ctx.rule = ("ro/<kind>: one case = two optionals (engaged or empty through generated ways) in a write-protected page and up to 8 of 26 const operations on them (state queries, all const accessors, "
                "value_or, comparisons with optionals/values/nullopt/std::optional in both orders, hash, copy construction and being the source of copy assignment from lvalue and const rvalue, monadic "
                "operations); any write to the objects is a fault, and the results must be those obtained before the protection. With threads: the same operations by two threads at once under the "
                "thread sanitizer, which also sees writes to shared state elsewhere. Every case is non-trivial (at least one operation on protected objects).")
    cfgs = {"A": ["g17", "c20n"], "B": ["g17", "c20", "g32n"], "C": ["g20", "g32"], "D": ["g17", "c20n", "g32"], "E": ["g17", "c20"]}
    thr = {"A": ["gtsan"], "B": ["gtsan"], "C": ["gtsan"], "D": ["gtsan"]}
    cases, tc = 600, 60
    if ctx.thorough:
        every = ["g17", "g20n", "g23n", "g32", "g32n", "c17", "c20n", "c23n", "g17noub", "g20nobitmem", "g17nomem", "casan17", "c20"]
        cfgs = {g: every for g in "ABCDE"}
        thr = {g: ["gtsan", "ctsan"] for g in "ABCD"}
        cases, tc = 20000, 1500
    jobs = [{"src": "ro.cpp", "cfg": c, "defs": [f"GRP_{g}"], "cases": cases} for g in "EDCAB" for c in cfgs[g]]
    src = os.path.join(ctx.dir, "probe.cpp")
    open(src, "w").write(PROBE)
    usable = True
    for c in sorted({c for v in thr.values() for c in v}):
        rc, _, _ = ctx.run_cmd(vp.CFG[c].split() + [src, "-o", src[:-4]])
        usable = usable and rc == 0 and ctx.run_cmd([src[:-4]])[0] == 0
    ctx.coverage["thread_sanitizer_usable"] = usable
    if usable:
        jobs = [{"src": "ro.cpp", "cfg": c, "defs": [f"GRP_{g}", "THREADS"], "cases": tc} for g in thr for c in thr[g]] + jobs
    ctx.harness(jobs)
