"""Generated tables of checks in one program: compile once per configuration, isolate the failing entry on failure."""
import os, json
import vp

MAIN = """
int main()
{
  int bad = 0;
  (void)bad;
%s
  return bad ? 9 : 0;
}
"""


def program(pre, entries):
    body = []
    for i, e in entries:
        if e["code"]:
            body.append(f'  {{ bool ok = true; {e["code"]} if (!ok) {{ std::printf("BAD {i}\\n"); ++bad; }} }}')
    decls = "\n".join(dict.fromkeys(e["decl"] for _, e in entries if e.get("decl")))
    return "#include <cstdio>\n" + pre + "\n" + decls + MAIN % "\n".join(body)


def run(ctx, name, cfg, pre, entries, defs=(), chunk=400, count=True):
    """entries: dicts with desc, code (statements that may set ok=false), decl (namespace scope code), nontrivial, expect
    ('run' default or 'reject'), ident for known findings."""
    positive = [(i, e) for i, e in enumerate(entries) if e.get("expect", "run") == "run"]
    negative = [(i, e) for i, e in enumerate(entries) if e.get("expect", "run") == "reject"]
    if count:
        for i, e in positive + negative:
            ctx.count((cfg, e["desc"]), e.get("nontrivial", True), label=e.get("label"))
        ctx.configs[f"{name}/{cfg}"] = ctx.configs.get(f"{name}/{cfg}", 0) + len(entries)
        for i, e in ctx.rng.sample(list(enumerate(entries)), min(2, len(entries))):
            if len(ctx.samples) < 25:
                ctx.samples.append(f"[{cfg}] {e['desc']}")

    def build(sub, tag):
        src = os.path.join(ctx.dir, f"{name}-{cfg}-{tag}.cpp")
        with open(src, "w") as f:
            f.write(program(pre, sub))
        exe = src[:-4]
        ok, log = ctx.compile(cfg, src, exe, defs)
        return ok, log, exe, src

    def report(i, e, what, expect):
        if e.get("code") is None:
            e["code"] = ""
        src = program(pre, [(i, e)])
        ctx.violation({"kind": "program", "expect": expect, "cfg": cfg, "defs": list(defs), "source": src}, f"{name}/{cfg}: {e['desc']}: {what}", ident=e.get("ident"))

    def control(x, tag):
        """Does the oracle (the same with std::optional on both sides) hold itself? If not the case is dropped."""
        i, e = x
        if not e.get("control"):
            return True
        ok, _, exe, src = build([(i, dict(e, code=e["control"]))], tag + "c")
        if ok:
            ok = ctx.run_cmd([exe], timeout=120)[0] == 0
        if not ok:
            with ctx.lock:
                ctx.labels["oracle does not hold by itself (dropped)"] = ctx.labels.get("oracle does not hold by itself (dropped)", 0) + 1
        return ok

    def go(sub, tag):
        if ctx.stop.is_set() or not sub:
            return
        # Entries with a known finding may not compile: on their own.
        ok, log, exe, src = build(sub, tag)
        if not ok:
            if len(sub) == 1:
                if not ctx.control_ok(cfg):
                    raise vp.HarnessError(f"configuration {cfg} cannot compile anything")
                first = [l for l in log.splitlines() if "error:" in l][:2]
                if not control(sub[0], tag):
                    return
                report(*sub[0], "does not compile: " + " | ".join(first)[:600], "run")
                return
            # Which entries are to blame? Halving, every part on its own.
            h = len(sub) // 2
            go(sub[:h], tag + "a")
            go(sub[h:], tag + "b")
            return
        rc, out, err = ctx.run_cmd([exe], timeout=120)
        os.remove(exe)
        os.remove(src)
        if rc == 0:
            return
        bad, text = [], []
        for l in out.splitlines():
            if l.startswith("BAD "):
                bad.append((int(l.split()[1]), "; ".join(x.strip() for x in text)[:500]))
                text = []
            else:
                text.append(l)
        if bad:
            d = dict(sub)
            for b, t in bad[:3]:
                report(b, d[b], e_what(d[b]) + (f": {t}" if t else ""), "run")
        elif len(sub) > 1:
            h = len(sub) // 2
            go(sub[:h], tag + "a")
            go(sub[h:], tag + "b")
        else:
            if control(sub[0], tag):
                report(*sub[0], f"the program dies with status {rc}: {err[-300:]}", "run")

    def e_what(e):
        return e.get("what", "does not hold")

    singles = [x for x in positive if x[1].get("ident")]
    rest = [x for x in positive if not x[1].get("ident")]
    for k, x in enumerate(singles):
        go([x], f"k{k}")
    for k in range(0, len(rest), chunk):
        go(rest[k:k + chunk], str(k))

    def neg(x):
        i, e = x
        if ctx.stop.is_set():
            return
        src = os.path.join(ctx.dir, f"{name}-{cfg}-n{i}.cpp")
        with open(src, "w") as f:
            f.write(program(pre, [x]))
        ok, log = ctx.compile(cfg, src, "/dev/null", defs, extra=["-fsyntax-only"], link=True)
        os.remove(src)
        if ok:
            report(i, e, "is accepted although it has to be rejected", "reject")

    for x in negative:
        neg(x)
