"""The same generated histories in every build configuration: transcripts have to be identical; sanitizers have to stay quiet."""
import hashlib, os
import vp

LEVEL = "exploration"
# Results that legitimately depend on the width of long.
WIDTH = {"conf/AipLong", "conf/AipULong"}


def is32(cfg):
    return "-m32" in vp.CFG[cfg]


def run_bin(ctx, cfg, defs, *args):
    key = f"conf-{cfg}-{'-'.join(defs)}"
    exe = os.path.join(ctx.dir, hashlib.md5(key.encode()).hexdigest() + "x")
    if not os.path.exists(exe):
        ok, log = ctx.compile(cfg, os.path.join(vp.VERIF, "t", "conf.cpp"), exe, defs)
        if not ok:
            raise vp.HarnessError(log[:500])
    rc, out, err = ctx.run_cmd([exe, *args], timeout=300)
    return rc, out


def evaluate(ctx, cfg, defs, prop, choices):
    rc, out = run_bin(ctx, cfg, defs, "--eval", prop, ",".join(map(str, choices)))
    t = out.split(" ", 1)
    return (rc, t[0], t[1] if len(t) > 1 else "")


def differs(ctx, a, b, defs, prop, choices):
    x, y = evaluate(ctx, a, defs, prop, choices), evaluate(ctx, b, defs, prop, choices)
    return x[:2] != y[:2]


def shrink(ctx, a, b, defs, prop, ch):
    budget = 1500
    changed = True
    while changed and budget > 0:
        changed = False
        n = len(ch) // 2
        while n >= 1 and budget > 0:
            i = 0
            while i + n <= len(ch) and budget > 0:
                c = ch[:i] + ch[i + n:]
                budget -= 1
                if differs(ctx, a, b, defs, prop, c):
                    ch, changed = c, True
                else:
                    i += n
            n //= 2
        for i in range(len(ch)):
            if ch[i] and budget > 0:
                budget -= 1
                for v in {0, ch[i] // 2, ch[i] - 1}:
                    c = ch[:i] + [v] + ch[i + 1:]
                    budget -= 1
                    if v < ch[i] and differs(ctx, a, b, defs, prop, c):
                        ch, changed = c, True
                        break
    return ch


def replay(ctx, r):
    a, b = r["configs"]
    x = evaluate(ctx, a, r["defs"], r["prop"], r["choices"])
    y = evaluate(ctx, b, r["defs"], r["prop"], r["choices"])
    print(f"{a}: {x[2]}\n{b}: {y[2]}")
    bad = x[:2] != y[:2]
    print("FAILS: the results differ" if bad else "OK")
    return 1 if bad else 0


def check(ctx):
    ctx.rule = ("one case = a generated history of up to 30 operations (27 kinds, some with an injected exception) on three optionals of one kind, run without any "
                "oracle in each build configuration with the same choices; the transcript of all results and states has to be identical in all configurations "
                "(compilers, -O levels, standards, NDEBUG, -m32, -ffast-math with finite numbers, platform tricks off wholly or partly), and sanitizer builds "
                "(address, undefined, memory) have to run it without a report. Non-trivial: the history fills and empties an optional.")
    plan = {
        "A": ["g17", "c23n", "g32n", "g20noub", "casan17"],
        "B": ["g17", "g23n", "c17", "g32", "g17noub", "g20nobitmem", "gasan20", "cmsan"],
        "C": ["g17", "c20n", "g32n", "g17noub", "gasan20"],
        "D": ["g17", "c23n", "g17nomem", "g20nobitmem", "g17noub", "g32", "g20n", "casan17"],
        "E": ["g17", "g23n", "c17", "g32", "g20nobitmem", "g17nomem", "casan17"],
        "M": ["g17", "g20", "c17", "c20n", "g32", "g17noub", "g20nobitmem", "gasan20", "g20fast", "c20fast"],
    }
    fast = {"A": ["g20fast"], "B": ["g17", "g20fast", "c20fast"], "C": ["g17", "c20fast"], "D": ["g17", "c20fast"]}
    extra = [("cont.cpp", "casan17", ["PART=1"])]
    cases = 1200
    if ctx.thorough:
        every = ["g17", "g20", "g23", "g17o", "g17n", "g23n", "g17noub", "g20noub", "g20nobit", "g17nomem", "g20nobitmem", "g32", "g32n", "c32", "c17", "c20", "c23", "c20n", "c20noub",
                 "casan", "gasan", "casannoub", "g32asan", "cmsan"]
        plan = {g: every for g in plan}
        for g in "BD":
            plan[g] = [c for c in every if not (g in "BD" and c == "g20nobit")]
        fast = {g: ["g17", "g20fast", "c20fast"] for g in "ABCD"}
        cases = 40000
        extra = []
        for src, parts in (("cont.cpp", 3), ("cmp.cpp", 4), ("hash.cpp", 2), ("monad.cpp", 3), ("manip.cpp", 3), ("bits.cpp", 2)):
            for c in ("casan", "gasan", "g32asan", "casannoub", "casan17"):
                extra += [(src, c, [f"PART={p}"]) for p in range(parts)]
        extra += [("acc.cpp", c, [f"GRP_{g}"]) for g in "ABCDE" for c in ("casan", "gasan20", "g32asan", "casannoub")]
    jobs = []
    for g, cs in plan.items():
        for c in cs:
            jobs.append({"src": "conf.cpp", "cfg": c, "defs": [f"GRP_{g}", "CONF=1"], "cases": cases})
    for g, cs in fast.items():
        if len(cs) == 1:
            cs = ["g17"] + cs
        for c in cs:
            jobs.append({"src": "conf.cpp", "cfg": c, "defs": [f"GRP_{g}", "CONF=2"], "cases": cases})
    jobs += [{"src": src, "cfg": c, "defs": defs, "cases": cases // 4} for src, c, defs in extra]
    jobs.sort(key=lambda j: 0 if "fsan" in vp.CFG[j["cfg"]] else 1)  # the slowest builds first
    res = ctx.harness(jobs)
    if ctx.violations:
        return
    compared = 0
    ref = {}
    for j, d in zip(jobs, res):
        if d is None or j["src"] != "conf.cpp":
            continue
        for prop, (n, h) in d["props"].items():
            k = (prop, tuple(j["defs"]), is32(j["cfg"]) if prop in WIDTH else None)
            if k not in ref:
                ref[k] = (j, h)
                continue
            compared += n
            j0, h0 = ref[k]
            if h0 == h or ctx.violations:
                continue
            a, b = j0["cfg"], j["cfg"]
            args = ["--dump", "--filter", prop, "--seed", str(ctx.seed), "--cases", str(cases)]
            la, lb = (run_bin(ctx, c, j["defs"], *args)[1].split() for c in (a, b))
            bad = [i for i in range(min(len(la), len(lb))) if la[i] != lb[i]]
            if not bad:
                raise vp.HarnessError(f"{prop}: transcripts of {a} and {b} differ, but no case does")
            ch = [int(x) for x in run_bin(ctx, a, j["defs"], *args, "--case", str(bad[0]))[1].strip().split(",")]
            if not differs(ctx, a, b, j["defs"], prop, ch):
                raise vp.HarnessError(f"{prop}: case {bad[0]} is not repeatable")
            ch = shrink(ctx, a, b, j["defs"], prop, ch)
            x, y = evaluate(ctx, a, j["defs"], prop, ch), evaluate(ctx, b, j["defs"], prop, ch)
            ctx.violation({"kind": "conf", "configs": [a, b], "defs": j["defs"], "prop": prop, "choices": ch},
                          f"{prop}: the same history gives different results in {a} and {b}: {x[2].strip()[:500]} versus {y[2].strip()[:500]}")
    ctx.coverage["cases compared between two configurations"] = compared
    ctx.coverage["sanitizer configurations"] = sorted({j["cfg"] for j in jobs if "fsan" in vp.CFG[j["cfg"]]})
