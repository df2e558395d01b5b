import os
import structs

LEVEL = "exploration"
INTS = {"char": (-100, 100), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767), "unsigned short": (0, 65535),
        "int": (-2**31 + 1, 2**31 - 1), "unsigned": (0, 2**32 - 1), "long": (-2**31 + 1, 2**31 - 1), "unsigned long": (0, 2**32 - 1),
        "long long": (-2**63 + 1, 2**63 - 1), "unsigned long long": (0, 2**64 - 1), "char16_t": (0, 65535), "wchar_t": (0, 2**31 - 1)}


def lit(v):
    return f"{v}ull" if v > 2**63 - 1 else f"{v}ll" if abs(v) >= 2**31 else str(v)


def trait(name, s, flag, opt, sentinel=None):
    fixes = f"    if (t.{flag[0]} == static_cast<{flag[1]}>({lit(sentinel)})) {{ t.{flag[0]} = static_cast<{flag[1]}>({lit(sentinel)} ^ 1); }}\n" if sentinel is not None else ""
    o = [f"struct {name}", "{", f"  static constexpr char const * name = {chr(34)}{opt.replace(chr(34), '')}{chr(34)};", f"  using T = {s.name};", f"  using Opt = {opt};",
         f"  static constexpr bool hasFlag = {'true' if flag else 'false'};", f"  static constexpr unsigned kMembers = {len(s.members)};",
         "  static void fill(T & t, pbt::Src & s)", "  {"]
    o += [f"    lay::fill(t.{m}, s);" for m, _, _ in s.members]
    o += [fixes + "  }", "  static char const * same(T const & a, T const & b)", "  {"]
    o += [f'    if (!lay::same(a.{m}, b.{m})) {{ return "{m}"; }}' for m, _, _ in s.members]
    o += ["    return nullptr;", "  }", "  static std::pair<void const *, std::size_t> flag(T const & t)", "  {"]
    o += [f"    return {{&t.{flag[0]}, sizeof(t.{flag[0]})}};" if flag else "    return {&t, sizeof t};", "  }"]
    o += ["  static void modify(unsigned m, T & p, T const & v, T & model)", "  {", "    switch (m) {"]
    for i, (m, t, a) in enumerate(s.members):
        o.append(f"    case {i}: std::memcpy(&p.{m}, &v.{m}, sizeof v.{m}); std::memcpy(&model.{m}, &v.{m}, sizeof v.{m}); break;")
    o += ["    }", "  }", "};", f'static pbt::Reg reg_{name}("layout/{name}", &lay::prop<{name}>);']
    return "\n".join(o)


def make(r, n):
    out = ['#include "layout.h"', structs.PRE]
    k = 0
    for i in range(n):
        s = structs.gen(r, f"S{i}")
        out.append(s.text)
        known = [m for m in s.members if m[1] in structs.KNOWN and not m[2]]
        ints = [m for m in s.members if m[1] in INTS and not m[2]]
        r.shuffle(known)
        r.shuffle(ints)
        for m in known[:2]:
            out.append(trait(f"K{k}", s, m, f"tiny::optional<{s.name}, &{s.name}::{m[0]}>"))
            k += 1
        for m in ints[:2]:
            lo, hi = INTS[m[1]]
            v = r.choice([lo, hi, 0, 1, r.randint(lo, hi)])
            if r.random() < 0.6:
                opt = f"tiny::optional<{s.name}, &{s.name}::{m[0]}, {lit(v)}>"
            else:
                out.append(f"struct V{k} {{ static constexpr {m[1]} value = static_cast<{m[1]}>({lit(v)}); }};")
                opt = f"tiny::optional_sentinel_via_type<{s.name}, V{k}, &{s.name}::{m[0]}>"
            out.append(trait(f"K{k}", s, m, opt, v))
            k += 1
        if r.random() < 0.25:
            out.append(trait(f"K{k}", s, None, f"tiny::optional<{s.name}>"))
            k += 1
    return "\n".join(out)


def check(ctx):
    ctx.rule = ("layouts: one case = a generated struct layout (1-7 members of random types, arrays, over-aligned members, virtual functions, base class) with the "
                "flag in a generated member (unused bits or a generated sentinel) and a history of up to 14 operations on four adjacent optionals between "
                "guard bytes; after each step the guards and all uninvolved neighbours are compared byte by byte, all members with those stored, and after "
                "emptying all bytes but the flag member's. modes: histories of all other optional kinds between canaries with untouched neighbours. "
                "Non-trivial: optionals were filled and emptied.")
    nfiles, n, cases = (6, 6, 1500)
    cfgs = ["g17", "c20n", "g20n", "g32", "casan17", "c17"]
    plan = {"A": ["g17"], "B": ["g17", "g32"], "C": ["c20"], "D": ["g17", "c20n"], "E": ["g20n"]}
    hc = 800
    if ctx.thorough:
        nfiles, n, cases, hc = (90, 8, 20000, 20000)
        cfgs = ["g17", "c20n", "g20n", "g32", "casan17", "c17", "g32n", "gasan", "g23n", "g17noub", "g20nobitmem", "g17nomem", "casan"]
        plan = {g: ["g17", "g32", "c20n", "g23n", "g17noub", "c32", "g17n"] for g in "ABCDE"}
    jobs = []
    for f in range(nfiles):
        path = os.path.join(ctx.dir, f"layouts{f}.cpp")
        cfg = cfgs[f % len(cfgs)]
        with open(path, "w") as o:
            o.write(make(ctx.rng, n))
        jobs.append({"src": path, "cfg": cfg, "cases": cases})
    jobs += [{"src": "hist.cpp", "cfg": c, "defs": [f"GRP_{g}", "HIST=13"], "cases": hc} for g, cs in plan.items() for c in cs]
    ctx.harness(jobs)
