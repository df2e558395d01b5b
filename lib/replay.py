"""Repeats the failure stored in a replay file against the current tree: exit 1 if it still fails, 0 if not."""
import json, os, subprocess
import vp


def replay(path):
    r = json.load(open(path))
    ctx = vp.Ctx("replay", "quick", 1)
    print(r["summary"])
    kind = r["kind"]
    if kind in ("build", "pbt", "run"):
        j = r["job"]
        exe = os.path.join(ctx.dir, "x")
        src = j["src"] if os.path.isabs(j["src"]) else os.path.join(vp.VERIF, "t", j["src"])
        if "source" in r:
            src = os.path.join(ctx.dir, "x.cpp")
            open(src, "w").write(r["source"])
        ok, log = ctx.compile(j["cfg"], src, exe, j.get("defs", ()), j.get("extra", ()))
        if not ok:
            print(log[:4000])
            print("FAILS: does not compile")
            return 1
        if kind == "build":
            print("OK: compiles now")
            return 0
        if kind == "pbt":
            cmd = [exe, "--replay", r["pbt"]["prop"], ",".join(map(str, r["pbt"]["choices"]))]
        else:
            cmd = [exe, "--run", "--seed", str(r["seed"]), "--cases", str(j["cases"]), "--stats", exe + ".json"]
        rc, out, err = ctx.run_cmd(cmd)
        print(out[-3000:], err[-3000:])
        print("FAILS" if rc else "OK")
        return 1 if rc else 0
    if kind == "program":
        import gen_prog
        return gen_prog.replay(ctx, r)
    if kind == "project":
        import p_c21
        return p_c21.replay(ctx, r)
    if kind == "conf":
        import p_c15
        return p_c15.replay(ctx, r)
    if kind == "interop":
        import p_c18
        return p_c18.replay(ctx, r)
    if kind == "natvis":  # a property of the file itself: the quick check repeats it
        import p_c19
        ctx.prop = "C19"
        p_c19.check(ctx)
        print("FAILS" if ctx.violations else "OK")
        return 1 if ctx.violations else 0
    print("unknown replay kind", kind)
    return 2
