import os
from ctypes_gen import ints, rng_of, literal, interesting
import vp
LEVEL = "exploration"

CLASSES = [("LitA", "LitA{%d, %dLL}"), ("LitMod", "LitMod{%d}")]


def generate(r, cfg32, std20, n):
    T = ints(cfg32, std20)
    out = ['#include "sent.h"', "static int gObj[4];", "static int fnA(int x) { return x; }", "using Fp = int (*)(int);"]
    combos = []
    k = 0

    def add(F, sentExpr, opt):
        nonlocal k
        out.append(f"SENT({k}, {F}, ({sentExpr}), {opt})")
        combos.append(opt)
        k += 1

    def via(F, expr):
        out.append(f"struct Via{k} {{ static constexpr {F} value = {expr}; }};")
        return f"Via{k}"

    names = list(T)
    plan = names * 2 + r.choices(names, k=n)
    for name in plan:
        lo, hi = rng_of(T[name])
        v = interesting(r, lo, hi)
        lit = [t for t in names if rng_of(T[t])[0] <= v <= rng_of(T[t])[1]]
        lt = r.choice(lit)
        e = literal(lt, v)
        cv = r.choice(["", "", "", "", " const", " volatile"])
        exp = literal(name, v)
        form = r.choice(["nttp", "nttp", "nttp", "member", "member", "via", "viamember", "aip"])
        if form == "nttp":
            add(name, exp, f"tiny::optional<{name}{cv}, {e}>")
        elif form == "aip":
            add(name, exp, f"tiny::optional_aip<{name}{cv}, {e}>")
        elif form == "member":
            add(name, exp, f"tiny::optional<Wrap<{name}>, &Wrap<{name}>::flag, {e}>")
        elif form == "via":
            t = via(lt, e)
            add(name, exp, f"tiny::optional_sentinel_via_type<{name}{cv}, {t}>")
        else:
            t = via(lt, e)
            add(name, exp, f"tiny::optional_sentinel_via_type<Wrap<{name}>, {t}, &Wrap<{name}>::flag>")
    # enums
    for i in range(8):
        u = r.choice([x for x in names if x not in ("wchar_t", "char16_t", "char32_t", "char8_t")])
        lo, hi = rng_of(T[u])
        v = interesting(r, lo, hi)
        scoped = r.random() < 0.6
        out.append(f"enum {'class ' if scoped else ''}En{k} : {u} {{ en{k}_a = {literal(u, v)} }};")
        en = f"En{k}::en{k}_a" if scoped else f"en{k}_a"
        if r.random() < 0.5:
            add(f"En{k}", en, f"tiny::optional<En{k}, {en}>")
        else:
            add(f"En{k}", en, f"tiny::optional<Wrap<En{k}>, &Wrap<En{k}>::flag, {en}>")
    # bool, pointers
    for b in ("true", "false"):
        add("bool", b, f"tiny::optional<bool, {b}>")
        add("bool", b, f"tiny::optional<Wrap<bool>, &Wrap<bool>::flag, {b}>")
    for p, e in (("int*", "nullptr"), ("int*", "&gObj[0]" if std20 else "nullptr"), ("Fp", "nullptr"), ("Fp", "&fnA"), ("void*", "nullptr")):
        if e == "&gObj[0]":
            e = "static_cast<int*>(&gObj[1])"
        add(p, e, f"tiny::optional<{p}, {e}>")
        add(p, e, f"tiny::optional<Wrap<{p}>, &Wrap<{p}>::flag, {e}>")
    # floating point
    for F, suf in (("double", ""), ("float", "f"), ("long double", "L"), ("double", ""), ("float", "f")):
        v = r.choice(["0.0", "-1.0", "-1.25", "3.0e38", "1.0e-37", "-16777217.0", "0.1"]) if r.random() < 0.6 else repr(round(r.uniform(-1e6, 1e6), 3))
        e = f"{v}{suf}"
        if std20 and r.random() < 0.6 and F != "long double":
            add(F, e, f"tiny::optional<{F}, {e}>")
            add(F, e, f"tiny::optional<Wrap<{F}>, &Wrap<{F}>::flag, {e}>")
        else:
            t = via(F, e)
            add(F, e, f"tiny::optional_sentinel_via_type<{F}, {t}>")
            t = via(F, e)
            add(F, e, f"tiny::optional_sentinel_via_type<Wrap<{F}>, {t}, &Wrap<{F}>::flag>")
    # classes
    for F, fmt in CLASSES:
        for _ in range(2):
            e = fmt % tuple(r.randint(-50, 50) for _ in range(fmt.count("%d")))
            if std20 and r.random() < 0.5:
                add(F, e, f"tiny::optional<{F}, {e}>")
            else:
                t = via(F, e)
                add(F, e, f"tiny::optional_sentinel_via_type<{F}, {t}>")
            if std20 and r.random() < 0.5:
                add(F, e, f"tiny::optional<Wrap<{F}>, &Wrap<{F}>::flag, {e}>")
            else:
                t = via(F, e)
                add(F, e, f"tiny::optional_sentinel_via_type<Wrap<{F}>, {t}, &Wrap<{F}>::flag>")
    # optional_aip's automatic sentinels
    for name, mac in (("short", "SHRT_MIN"), ("unsigned short", "USHRT_MAX"), ("int", "INT_MIN"), ("unsigned", "UINT_MAX"), ("long", "LONG_MIN"), ("unsigned long", "ULONG_MAX"), ("long long", "LLONG_MIN"), ("unsigned long long", "ULLONG_MAX")):
        cv = r.choice(["", "", " const", " volatile"])
        add(name, f"static_cast<{name}>({mac})", f"tiny::optional_aip<{name}{cv}>")
    return "\n".join(out) + "\n", combos


def check(ctx):
    ctx.rule = ("one case = one generated combination of type, sentinel, literal type and form (template value, via type, member, member via type, "
                "optional_aip; int/char types of all widths, bool, enums, pointers, floating point, classes) x two generated values different "
                "from the sentinel (neighbours, bit flips, the sentinel's other-width twins, limits, random), sent through 20 routes; empty "
                "optionals must hold the sentinel's bytes. 8 and 16 bit types are additionally enumerated completely. Every case is non-trivial "
                "(values differ from the sentinel by construction); distinct by the drawn choices.")
    cfgs = ["g17", "g20fast", "g32", "c20n", "c17", "g32n", "g17noub", "g20nomem" if False else "g17nomem"]
    cases, n = 300, 30
    if ctx.thorough:
        cfgs = ["g17", "g20", "g20fast", "g23n", "g32", "g32n", "c17", "c20n", "c23n", "c32", "casan", "gasan", "g17noub", "g17nomem", "g20nobit", "g20nobitmem"] * 3
        cases, n = 3000, 60
    jobs = []
    for i, c in enumerate(cfgs):
        std20 = "17" not in c and "gasan" != c and c not in ("g32",) and "c++17" not in vp.CFG[c]
        src, combos = generate(ctx.rng, "-m32" in vp.CFG[c], std20, n)
        path = os.path.join(ctx.dir, f"sent{i}.cpp")
        open(path, "w").write(src)
        for x in combos[:2]:
            ctx.samples.append(f"[{c}] {x}")
        ctx.labels["optional types generated"] = ctx.labels.get("optional types generated", 0) + len(combos)
        jobs.append({"src": path, "cfg": c, "cases": cases})
    ctx.harness(jobs)
