"""sizeof/alignof/is_compressed/is_tiny_optional for generated types in every configuration."""
import os
import vp, structs, table
from ctypes_gen import ints, rng_of, literal, interesting
LEVEL = "exploration"

PRE = """
#include <tiny/optional.h>
#include <array>
#include <climits>
#include <complex>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <variant>
#include <vector>
""" + structs.PRE + """
struct Empty {};
struct Mem { int a; double d; int f(int) { return 1; } };
enum class Ec : short { a, b };
enum Ep { ep_a, ep_b };
struct Cust { int x; int y; };
struct CustBig { char c[40]; };
struct Iface { virtual ~Iface() = default; virtual int f() = 0; };
struct FinalOne final { double d; };
struct NoMove { NoMove() {} NoMove(NoMove const &) = delete; double d; };
union Un { int i; double d; };
enum class Ecust : unsigned char { a, none };
struct CustManip
{
  static bool is_empty(Cust const & c) noexcept { return c.x < 0; }
  static void init_empty_flag(Cust & c) noexcept { ::new (&c) Cust{-1, 0}; }
  static void invalidate_empty_flag(Cust &) noexcept {}
};
template <class T> struct AnyManip
{
  static bool is_empty(T const & c) noexcept { return *reinterpret_cast<unsigned char const *>(&c) == 7; }
  static void init_empty_flag(T & c) noexcept { *reinterpret_cast<unsigned char *>(&c) = 7; }
  static void invalidate_empty_flag(T & c) noexcept { *reinterpret_cast<unsigned char *>(&c) = 6; }
};
namespace tiny
{
template <> struct optional_flag_manipulator<CustBig> : AnyManip<CustBig> {};
template <> struct optional_flag_manipulator<Ecust> : sentinel_flag_manipulator<Ecust, Ecust::none> {};
}
template <class O, class P> constexpr bool same() { return sizeof(O) == sizeof(P) && alignof(O) == alignof(P) && O::is_compressed; }
template <class O, class P> constexpr bool separate()
{
  using S = std::optional<P>;
  return sizeof(O) == sizeof(S) && alignof(O) == alignof(S) && !O::is_compressed && sizeof(O) > sizeof(P);
}
template <class O> constexpr bool isTiny() { return tiny::is_tiny_optional_v<O> && O::is_tiny_optional && tiny::is_tiny_optional_v<O const>; }
template <class A, class B> constexpr bool same_v = std::is_same<A, B>::value;
"""
PLAIN = ["long double", "std::string", "std::vector<int>", "std::unique_ptr<int>", "std::shared_ptr<int>", "Empty", "Mem", "Ec", "Ep", "int Mem::*",
         "double Mem::*", "int (Mem::*)(int)", "std::pair<double, bool>", "std::array<double, 3>", "std::array<char, 7>", "Un", "FinalOne", "NoMove",
         "std::nullptr_t", "std::complex<float>", "std::tuple<>", "std::optional<double>", "std::optional<bool>", "tiny::optional<double>",
         "tiny::optional<int>", "tiny::optional<bool>", "tiny::optional<int, 5>", "std::map<int, double>", "std::variant<int, double>", "wchar_t", "Cust",
         "std::byte", "tiny::optional<tiny::optional<float>>", "std::less<>"]
BITS = ["float", "double", "bool", "int *", "void *", "char const *", "Mem *", "int **", "FnPtr", "void (*)()", "void (*)(int, ...)", "Iface *",
        "double const *", "std::string *", "tiny::optional<int> *", "void (**)()", "int volatile *", "std::nullptr_t *", "int (*)[3]", "Mem & (*)(Mem &&) noexcept"]
NOT_TINY = ["int", "double", "void", "std::optional<int>", "std::optional<double>", "std::optional<tiny::optional<int>>", "Empty", "Mem", "int *",
            "tiny::optional<int> *", "std::vector<tiny::optional<int>>", "int[3]", "std::nullopt_t", "Un", "FinalOne", "Iface", "CustManip",
            "tiny::optional_flag_manipulator<double>", "Ec", "FnPtr", "int(int)"]


def entries(r, cfg, nStructs, nInts):
    flags = vp.CFG[cfg]
    noub = vp.NOUB in flags
    nobit, nomem = noub or vp.NOBIT in flags, noub or vp.NOMEM in flags
    cfg32, std20 = "-m32" in flags, "c++17" not in flags
    T = ints(cfg32, std20)
    out = []

    def add(opt, payload, inplace, label, decl=""):
        f = "same" if inplace else "separate"
        out.append({"desc": f"{opt} is expected to be {'as large as' if inplace else 'larger than'} {payload}", "label": label, "decl": decl,
                    "code": f"using O = {opt}; using P = {payload}; if (!{f}<O, P>() || !isTiny<O>() || !same_v<typename O::value_type, P>) {{ ok = false; std::printf(\"sizeof %d alignof %d compressed %d; payload %d/%d std %d/%d\\n\", (int)sizeof(O), (int)alignof(O), (int)O::is_compressed, (int)sizeof(P), (int)alignof(P), (int)sizeof(std::optional<P>), (int)alignof(std::optional<P>)); }}"})

    def cvs():
        return r.choice(["", "", "", " const", " volatile", " const volatile"])

    for p in PLAIN:
        cv = r.choice(["", "", " const"])
        add(f"tiny::optional<{p}{cv}>", f"{p}{cv}", False, "separate flag")
    for p in BITS:
        cv = cvs()
        pp = f"std::add_const_t<{p}>" if cv == " const" else f"std::add_volatile_t<{p}>" if cv == " volatile" else f"std::add_cv_t<{p}>" if cv else p
        if "(" not in p or not cv:
            pp = f"{p}{cv}" if "(" not in p else p
        add(f"tiny::optional<{pp}>", pp, not nobit, "unused bits")
        if not nobit and r.random() < 0.5:
            add(f"tiny::optional_aip<{pp}>", pp, True, "aip")
    for n in T:
        cv = cvs()
        add(f"tiny::optional<{n}{cv}>", f"{n}{cv}", False, "separate flag")
    for n in list(T) + r.choices(list(T), k=nInts):
        lo, hi = rng_of(T[n])
        v = literal(n, interesting(r, lo, hi))
        cv = cvs()
        add(f"tiny::optional<{n}{cv}, {v}>", f"{n}{cv}", True, "sentinel")
        add(f"tiny::optional_aip<{n}{cv}, {v}>", f"{n}{cv}", True, "sentinel")
        k = len(out)
        add(f"tiny::optional_sentinel_via_type<{n}{cv}, V{k}>", f"{n}{cv}", True, "sentinel via type", f"struct V{k} {{ static constexpr {n} value = {v}; }};")
    for n in ["short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]:
        cv = cvs()
        add(f"tiny::optional_aip<{n}{cv}>", f"{n}{cv}", True, "aip")
    # sentinels for types with unused bits stay in place with every setting
    for p, v in (("bool", "true"), ("bool", "false"), ("int *", "nullptr"), ("FnPtr", "nullptr"), ("Ec", "Ec::b"), ("Ep", "ep_b"), ("Ecust", "Ecust::a")):
        add(f"tiny::optional<{p}, {v}>", p, True, "sentinel")
    if std20:
        for p, v in (("double", "-1.0"), ("float", "2.5f")):
            add(f"tiny::optional<{p}, {v}>", p, True, "sentinel")
        add("tiny::optional<LitS, LitS{3}>", "LitS", True, "sentinel", "struct LitS { int a; char b = 0; friend constexpr bool operator==(LitS const & l, LitS const & r) noexcept { return l.a == r.a; } };")
    add("tiny::optional_sentinel_via_type<double, VD>", "double", True, "sentinel via type", "struct VD { static constexpr double value = 0.5; };")
    # custom manipulators
    for p in ("CustBig", "Ecust"):
        add(f"tiny::optional<{p}>", p, True, "manipulator")
        add(f"tiny::optional_aip<{p}>", p, True, "manipulator")
    add("tiny::optional_inplace<Cust, CustManip>", "Cust", True, "inplace")
    for p in r.sample(PLAIN[:-2] + BITS, 12):
        if "tuple" in p or "(" in p:
            continue
        add(f"tiny::optional_inplace<{p}, AnyManip<{p}>>", p, True, "inplace")
    # generated structs
    for i in range(nStructs):
        s = structs.gen(r, f"S{i}", mustKnown=True, custom=["CustBig", "Cust", "Ecust"])
        first = len(out)
        add(f"tiny::optional<{s.name}>", s.name, False, "separate flag")
        for m, t, a in s.members:
            if a:
                continue
            known = t in structs.KNOWN
            if (known and not nobit) or t in ("CustBig", "Ecust"):
                add(f"tiny::optional<{s.name}, &{s.name}::{m}>", s.name, not nomem, "member")
                if r.random() < 0.3:
                    add(f"tiny::optional_sentinel_via_type<{s.name}, tiny::UseDefaultType, &{s.name}::{m}>", s.name, not nomem, "member")
            elif nomem:
                add(f"tiny::optional<{s.name}, &{s.name}::{m}>", s.name, False, "member without member tricks")
            if t in T or t == "bool" or t.endswith("*") or t in ("FnPtr", "Ecust"):
                v = "true" if t == "bool" else "nullptr" if (t.endswith("*") or t == "FnPtr") else "Ecust::a" if t == "Ecust" else literal(t, interesting(r, *rng_of(T[t])))
                add(f"tiny::optional<{s.name}, &{s.name}::{m}, {v}>", s.name, not nomem, "member + sentinel")
            elif std20 and t in ("double", "float"):
                add(f"tiny::optional<{s.name}, &{s.name}::{m}, {t}(-2)>", s.name, not nomem, "member + sentinel")
        if r.random() < 0.3 and s.kind != "ctor":
            add(f"tiny::optional_inplace<{s.name}, AnyManip<{s.name}>>", s.name, True, "inplace")
        for e in out[first:]:
            e["decl"] = s.text
    # types of results
    for code, want in (("tiny::make_optional(3.5)", "tiny::optional<double>"), ("tiny::make_optional<int, 7>(3)", "tiny::optional<int, 7>"),
                       ("tiny::optional{4}", "tiny::optional<int>"), ("tiny::optional<int>{}.transform([](int) { return 1.5f; })", "tiny::optional<float>"),
                       ("tiny::optional<int, 3>{}.transform([](int) { return 1; })", "tiny::optional<int>")):
        out.append({"desc": f"{code} has the type and size of {want}", "label": "results", "code": f"auto x = {code}; using O = decltype(x); if (!same_v<O, {want}>) ok = false;"})
    for t in NOT_TINY:
        out.append({"desc": f"is_tiny_optional_v<{t}> is false", "label": "not tiny", "code": f"if (tiny::is_tiny_optional_v<{t}>) ok = false;"})
    return out


def check(ctx):
    ctx.rule = ("one case = one generated optional type (payload x form x sentinel/member, over fixed and random struct layouts) in one configuration; "
                "sizeof, alignof, is_compressed, is_tiny_optional and value_type are compared with the documented rule, computed from sizeof/alignof of "
                "the payload and of std::optional. Every case counts as non-trivial; distinct by type and configuration.")
    cfgs = ["g17", "c20", "g32", "g17noub", "g20nobit", "g17nomem", "g20nobitmem", "c32"]
    n, k = 25, 20
    if ctx.thorough:
        cfgs += ["g23n", "c23n", "g32n", "c20noub", "c17", "g20fast", "gasan"]
        cfgs *= 6
        n, k = 60, 60
    jobs = [(f"size{i}", c, entries(ctx.rng, c, n, k)) for i, c in enumerate(cfgs)]
    ctx.parallel(lambda j: table.run(ctx, j[0], j[1], PRE, j[2]), jobs)
