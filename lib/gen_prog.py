"""Checks that generate whole C++ programs: compile / reject / run expectations, with isolation of the failing part."""
import os
import vp


def replay(ctx, r):
    """r: {source, cfg, expect: compile|reject|run|link..., args}"""
    src = os.path.join(ctx.dir, "x.cpp")
    open(src, "w").write(r["source"])
    exe = os.path.join(ctx.dir, "x")
    if r["expect"] == "links":
        objs = []
        for i, p in enumerate(r["parts"]):
            s = os.path.join(ctx.dir, f"p{i}.cpp")
            open(s, "w").write(p["source"])
            o = os.path.join(ctx.dir, f"p{i}.o")
            ok, log = ctx.compile(p["cfg"], s, o, p.get("defs", ()), link=False)
            if not ok:
                print(log[:3000])
                print("FAILS: does not compile")
                return 1
            objs.append(o)
        rc, out, err = ctx.run_cmd(vp.CFG[r["parts"][0]["cfg"]].split()[:1] + r.get("ldflags", []) + objs + ["-o", exe])
        linked = rc == 0
        print(err[-2000:])
        if linked != r["links"]:
            print("FAILS: links" if linked else "FAILS: does not link")
            return 1
        if not linked:
            print("OK")
            return 0
        rc, out, err = ctx.run_cmd([exe])
        print(out, err, "FAILS" if rc else "OK")
        return 1 if rc else 0
    ok, log = ctx.compile(r["cfg"], src, exe, r.get("defs", ()), link=r["expect"] == "run")
    if r["expect"] == "reject":
        print("FAILS: compiles although it has to be rejected" if ok else "OK: rejected")
        return 1 if ok else 0
    if not ok:
        print(log[:4000])
        print("FAILS: does not compile")
        return 1
    if r["expect"] == "compile":
        print("OK")
        return 0
    rc, out, err = ctx.run_cmd([exe, *r.get("args", [])])
    print(out[-3000:], err[-3000:])
    print("FAILS" if rc else "OK")
    return 1 if rc else 0
