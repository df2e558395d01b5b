"""Generated programs that have to be accepted or rejected."""
import os, re
import vp, table

LEVEL = "exploration"

PRE = """
#include <tiny/optional.h>
#include <chrono>
#include <memory>
#include <string>
#include <variant>
#include <vector>
"""


def types(cfg):
    m32 = "-m32" in vp.CFG[cfg]
    cpp20 = "c++17" not in vp.CFG[cfg]
    b = {"char": 8, "signed char": 8, "short": 16, "int": 32, "long": 32 if m32 else 64, "long long": 64, "wchar_t": 32}
    u = {"unsigned char": 8, "unsigned short": 16, "unsigned": 32, "unsigned long": 32 if m32 else 64, "unsigned long long": 64, "char16_t": 16, "char32_t": 32}
    if m32:
        b["wchar_t"] = 32
    if cpp20:
        u["char8_t"] = 8
    r = {k: (-2**(n - 1), 2**(n - 1) - 1) for k, n in b.items()}
    r.update({k: (0, 2**n - 1) for k, n in u.items()})
    return r


def lit(v):
    if v == -2**63:
        return "(-9223372036854775807ll - 1)"
    return f"{v}ull" if v > 2**63 - 1 else f"{v}ll" if abs(v) >= 2**31 else str(v)


def val(u, v):
    return f"static_cast<{u}>({lit(v)})"


def E(desc, text, accept, label, ident=None):
    return {"desc": desc, "text": " ".join(text.split()), "accept": accept, "label": f"{label}: {'accept' if accept else 'reject'}", "ident": ident}


def integral(r, cfg, n):
    ts = types(cfg)
    nomem = vp.NOMEM in vp.CFG[cfg] or vp.NOUB in vp.CFG[cfg]
    out = []
    for _ in range(n):
        T, U = r.choice(list(ts)), r.choice(list(ts))
        (tl, th), (ul, uh) = ts[T], ts[U]
        cand = [x for x in (tl - 1, tl, tl + 1, th - 1, th, th + 1, ul, uh, 0, -1, 1, uh // 2, uh // 2 + 1, r.randint(ul, uh), th * 2 + 1, th + 256, tl - 256) if ul <= x <= uh]
        # Boundaries of the target first.
        v = r.choice(cand)
        ok = tl <= v <= th
        route = r.choice(["value", "value", "member", "via", "viamem", "aip", "helper", "make", "const", "volatile", "viaconst"])
        if nomem and route in ("member", "viamem"):
            route = "value"
        if route == "helper" and not ok:
            route = "value"  # (sentinel_flag_manipulator does not claim to check the range)
        x = v + 1 if v + 1 <= th else v - 1
        if not ok:
            x = 0
        L, X = val(U, v), val(T, x)
        pre, typ, mem = "", None, False
        if route in ("value", "make"):
            typ = f"tiny::optional<{T}, {L}>"
        elif route in ("const", "volatile"):
            typ = f"tiny::optional<{T} {route}, {L}>"
        elif route == "aip":
            typ = f"tiny::optional_aip<{T}, {L}>"
        elif route == "helper":
            typ = f"tiny::optional_inplace<{T}, tiny::sentinel_flag_manipulator<{T}, {L}>>"
        elif route in ("via", "viaconst"):
            pre = f"struct V {{ static constexpr {U} value = {L}; }};"
            typ = f"tiny::optional_sentinel_via_type<{T}{' const' if route == 'viaconst' else ''}, V>"
        elif route == "member":
            pre = f"struct S {{ {r.choice(['char', 'double', 'int'])} pad; {T} m; }};"
            typ, mem = f"tiny::optional<S, &S::m, {L}>", True
        else:
            pre = f"struct S {{ {r.choice(['char', 'double', 'int'])} pad; {T} m; }}; struct V {{ static constexpr {U} value = {L}; }};"
            typ, mem = "tiny::optional_sentinel_via_type<S, V, &S::m>", True
        make = f"tiny::make_optional<{T}, {L}>({X})" if route == "make" else (f"O(S{{1, {X}}})" if mem else f"O({X})")
        body = f"O o; O p = {make}; return !o.has_value() && p.has_value() && {'p->m' if mem else '*p'} == {X} && sizeof(O) == sizeof({'S' if mem else T});"
        out.append(E(f"{typ} ({route}), sentinel {v} of type {U}", f"{pre} using O = {typ}; inline bool f() {{ {body} }}", ok, "integral sentinel"))
    return out


def kinds(r, cfg, n):
    """bool, floating point, enums, pointers."""
    cpp20 = "c++17" not in vp.CFG[cfg]
    out = []
    fl = ["float", "double", "long double"]
    ints = ["int", "char", "unsigned", "short", "long long", "unsigned char"]
    for _ in range(n):
        k = r.randrange(9)
        if k == 0:  # bool and something else
            T, U = r.choice([("bool", r.choice(ints)), (r.choice(ints), "bool"), ("bool", "bool"), ("bool", "double"), ("double", "bool")])
            v = "true" if U == "bool" else "1"
            via = r.random() < 0.5 or "double" in (T, U)
            ok = T == U
            typ = f"tiny::optional_sentinel_via_type<{T}, V>" if via else f"tiny::optional<{T}, static_cast<{U}>({v})>"
            out.append(E(f"{typ} with a sentinel of type {U}", f"struct V {{ static constexpr {U} value = static_cast<{U}>({v}); }}; inline bool f() {{ {typ} o; return !o.has_value(); }}", ok, "bool"))
        elif k == 1:
            T = r.choice(fl + ["int", "unsigned"])
            U = r.choice(fl + ([T] if T in fl else []) + ["int"])
            if T not in fl and U not in fl:
                U = "double"
            v = r.choice(["0", "1", "-1"])
            if v == "-1" and U == "unsigned":
                v = "1"
            ok = T == U
            mem = r.random() < 0.4 and not (vp.NOMEM in vp.CFG[cfg] or vp.NOUB in vp.CFG[cfg])
            cv = r.choice(["", "", " const"]) if not mem else ""
            if cpp20 and r.random() < 0.5 and not (vp.CFG[cfg].startswith("clang") and "long double" in (T, U)):
                typ = f"tiny::optional<S, &S::m, static_cast<{U}>({v})>" if mem else f"tiny::optional<{T}{cv}, static_cast<{U}>({v})>"
            else:
                typ = "tiny::optional_sentinel_via_type<S, V, &S::m>" if mem else f"tiny::optional_sentinel_via_type<{T}{cv}, V>"
            out.append(E(f"{typ}, flag type {T}, sentinel type {U} value {v}",
                         f"struct S {{ int i; {T} m; }}; struct V {{ static constexpr {U} value = static_cast<{U}>({v}); }}; inline bool f() {{ {typ} o; return !o.has_value(); }}", ok, "floating point"))
        elif k == 2:
            en = r.choice(["enum class E : short { a, b, c = 77 };", "enum E { a, b, c = 77 };", "enum class E { a, b, c = 77 };", "enum E : unsigned char { a, b, c = 77 };"])
            s = r.choice([("E::c", True), ("E::a", True), ("static_cast<E>(9)", True), ("77", False), ("Other::z", False), ("'c'", False), ("0u", False)])
            mem = r.random() < 0.3 and not (vp.NOMEM in vp.CFG[cfg] or vp.NOUB in vp.CFG[cfg])
            out.append(E(f"{en} sentinel {s[0]}{' in a member' if mem else ''}",
                         f"{en} enum class Other {{ z }}; struct S {{ int i; E m; }}; inline bool f() {{ tiny::optional<{'S, &S::m' if mem else 'E'}, {s[0]}> o; return !o.has_value(); }}", s[1], "enum"))
        elif k == 3:
            s = r.choice([("int *", "nullptr", True), ("int *", "&obj", True), ("int *", "0", False), ("int *", "&dobj", False), ("int const *", "&obj", True), ("void *", "&obj", True),
                          ("void *", "nullptr", True), ("int *", "1", False), ("double *", "&obj", False), ("int (*)(int)", "&fn", True), ("int (*)(int)", "&gn", False), ("int (*)(int)", "nullptr", True)])
            out.append(E(f"tiny::optional<{s[0]}, {s[1]}>", f"inline int obj; inline double dobj; inline int fn(int) {{ return 1; }} inline int gn(double) {{ return 1; }} inline bool f() {{ tiny::optional<{s[0]}, {s[1]}> o; return !o.has_value(); }}", s[2], "pointer"))
        elif k == 4:  # payload kinds
            bad = ["int &", "int const &", "int &&", "int[3]", "int[]", "void", "int()", "std::nullopt_t", "std::nullopt_t const", "std::in_place_t", "std::in_place_t const", "Priv", "Del", "Inc",
                   "std::string &", "void const", "int (&)[2]"]
            good = ["int", "std::monostate", "std::in_place_type_t<int>", "std::nullptr_t", "std::vector<int>", "Fin", "int *", "int (*)(int)", "std::unique_ptr<int>", "Ag", "std::string const",
                    "int S::*", "std::pair<int, int>", "Un"]
            ok = r.random() < 0.4
            T = r.choice(good if ok else bad)
            kind = r.choice(["tiny::optional<T>", "tiny::optional_sentinel_via_type<T, tiny::UseDefaultType>", "tiny::optional<T>"])
            out.append(E(f"{kind} with T = {T}",
                         f"class Priv {{ ~Priv(); }}; struct Del {{ ~Del() = delete; }}; struct Inc; struct Fin final {{ int x = 1; }}; struct S {{ int i; }}; struct Ag {{ int a[3]; }}; union Un {{ int a; float b; }}; using T = {T}; inline bool f() {{ {kind} o; return !o.has_value(); }}",
                         ok, "payload type"))
        elif k == 5:  # the sentinel's class type
            c = r.choice([("noexcept", "noexcept", True), ("", "noexcept", False), ("noexcept", "", False), ("noexcept(false)", "noexcept", False), ("noexcept(true)", "noexcept(true)", True)])
            out.append(E(f"class type sentinel with operator==() {c[0]} and operator= {c[1]}",
                         f"struct C {{ int v; constexpr C(int x) noexcept : v(x) {{}} constexpr C(C const & o) noexcept : v(o.v) {{}} C & operator=(C const & o) {c[1]} {{ v = o.v; return *this; }} friend constexpr bool operator==(C const & a, C const & b) {c[0]} {{ return a.v == b.v; }} }}; struct V {{ static constexpr C value{{7}}; }}; inline bool f() {{ tiny::optional_sentinel_via_type<C, V> o; return !o.has_value(); }}",
                         c[2], "class sentinel"))
        elif k == 6:  # wrong sentinel for a class payload
            s = r.choice([("S, &S::fun", False), ("S, 5", False), ("S, &S::m, 5", True), ("S, &S::m, nullptr", False), ("S, &S::p, nullptr", True), ("S, &S::p, 5", False), ("std::string, 5", False)])
            if (vp.NOMEM in vp.CFG[cfg] or vp.NOUB in vp.CFG[cfg]) and "&S::m" in s[0] or "&S::p" in s[0] and (vp.NOMEM in vp.CFG[cfg] or vp.NOUB in vp.CFG[cfg]):
                continue
            out.append(E(f"tiny::optional<{s[0]}>", f"struct S {{ int m; int * p; int fun() {{ return 1; }} }}; inline bool f() {{ tiny::optional<{s[0]}> o; return !o.has_value(); }}", s[1], "class payload"))
        elif k == 7 and cpp20:  # structural class as template argument
            ok = r.random() < 0.5
            out.append(E(f"structural class sentinel {'of the same type' if ok else 'of another type'}",
                         f"struct C {{ int v; friend constexpr bool operator==(C const & a, C const & b) noexcept {{ return a.v == b.v; }} }}; struct D {{ int v; }}; inline bool f() {{ tiny::optional<C, {'C' if ok else 'D'}{{3}}> o; return !o.has_value(); }}", ok, "class sentinel"))
        else:
            pass
    return out


def members(r, cfg, n):
    c = vp.CFG[cfg]
    nomem = vp.NOMEM in c or vp.NOUB in c
    nobit = vp.NOBIT in c or vp.NOUB in c
    out = []
    unknown = ["int", "unsigned", "char", "long double", "std::string", "En", "int Q::*", "Q", "short", "std::nullptr_t", "wchar_t"]
    known = ["bool", "float", "double", "int *", "void *", "Fp", "char const *"]
    custom = ["Cm"]
    cm = ("struct Cm { int v = 1; };", "template <> struct tiny::optional_flag_manipulator<@::Cm> { static bool is_empty(@::Cm const & c) noexcept { return c.v == -1; } "
          "static void init_empty_flag(@::Cm & c) noexcept { ::new (static_cast<void *>(&c)) @::Cm{-1}; } static void invalidate_empty_flag(@::Cm & c) noexcept { c.~Cm(); } };")
    for _ in range(n):
        m = r.choice(unknown + known + custom)
        other = r.random() < 0.35
        cls = "Other" if other else "S"
        isKnown = m in custom or (m in known and not nobit)
        form = r.choice(["opt", "via", "sent"])
        base = f"using Fp = int (*)(int); enum class En {{ a, b }}; struct Q {{ int q; }}; {cm[0]} struct S {{ {r.choice(['int', 'char', 'double'])} x{{}}; {m} m{{}}; }}; struct Other {{ {m} m{{}}; }};"
        if form == "sent":
            if m not in ("int", "unsigned", "char", "short", "wchar_t", "bool", "int *", "En"):
                continue
            lit_ = {"bool": "true", "int *": "nullptr", "En": "En::b"}.get(m, "3")
            typ = f"tiny::optional<S, &{cls}::m, {lit_}>"
            ok = not other
        else:
            typ = f"tiny::optional<S, &{cls}::m>" if form == "opt" else f"tiny::optional_sentinel_via_type<S, tiny::UseDefaultType, &{cls}::m>"
            ok = not other and (isKnown or nomem)
        # (The specialization of the flag manipulator has to be visible before its use: namespace closed and reopened.)
        text = f"{base} }} {cm[1]} namespace @ {{ inline bool f() {{ {typ} o; {'' if form == 'sent' else 'o.emplace(); '}o.reset(); return !o.has_value(); }}"
        out.append(E(f"{typ}, member type {m}", text, ok, "member pointer"))
    return out


def aip(r, cfg, n):
    c = vp.CFG[cfg]
    nobit = vp.NOBIT in c or vp.NOUB in c
    cpp20 = "c++17" not in c
    bad = ["char", "signed char", "unsigned char", "char16_t", "char32_t", "wchar_t", "En", "Un", "long double", "S", "std::string", "int S::*", "std::nullptr_t", "std::unique_ptr<int>"] + (["char8_t"] if cpp20 else [])
    good = ["short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]
    bits = ["bool", "float", "double", "int *", "void *", "int (*)(int)"]
    sent = [("char", "'a'"), ("signed char", "-1"), ("unsigned char", "255"), ("En", "En::b"), ("Un", "u1"), ("wchar_t", "L'x'"), ("char16_t", "u'x'"), ("int", "7"), ("bool", "true"), ("int *", "nullptr")]
    out = []
    for _ in range(n):
        k = r.randrange(4)
        if k == 3:
            T, L = r.choice(sent)
            out.append(E(f"optional_aip<{T}, {L}>", f"enum class En {{ a, b }}; enum Un {{ u0, u1 }}; using O = tiny::optional_aip<{T}, {L}>; inline bool f() {{ O o; return !o.has_value() && sizeof(O) == sizeof({T}); }}", True, "aip with sentinel"))
            continue
        T = r.choice([bad, good, bits][k])
        cv = r.choice(["", "", " const", " volatile"])
        ok = k == 1 or (k == 2 and not nobit)
        out.append(E(f"optional_aip<{T}{cv}>", f"enum class En {{ a, b }}; enum Un {{ u0, u1 }}; struct S {{ int x; }}; using P = {T}; using O = tiny::optional_aip<P{cv}>; inline bool f() {{ O o; return !o.has_value() && sizeof(O) == sizeof(P); }}", ok, "aip"))
    return out


def manips(r, cfg, n):
    out = []
    for _ in range(n):
        broken = r.choice([None, "is", "init", "inv", "noIs", "noInit", "noInv", "nonstaticIs"])
        nx = {k: ("noexcept" if broken != k else r.choice(["", "noexcept(false)"])) for k in ("is", "init", "inv")}
        fns = []
        if broken != "noIs":
            fns.append(f"{'' if broken == 'nonstaticIs' else 'static '}bool is_empty(P const & c) {nx['is']} {'const ' if False else ''}{{ return c.v == -1; }}")
        if broken != "noInit":
            fns.append(f"static void init_empty_flag(P & c) {nx['init']} {{ ::new (static_cast<void *>(&c)) P{{-1}}; }}")
        if broken != "noInv":
            fns.append(f"static void invalidate_empty_flag(P & c) {nx['inv']} {{ c.~P(); }}")
        body = " ".join(fns)
        kind = r.choice(["inplace", "spec", "member", "inplaceDerived"])
        if kind == "member" and (vp.NOMEM in vp.CFG[cfg] or vp.NOUB in vp.CFG[cfg]):
            kind = "spec"
        P = "struct P { int v; }; struct H { char c; P p; };"
        if kind == "inplace":
            text = f"{P} struct M {{ {body} }}; inline bool f() {{ tiny::optional_inplace<P, M> o; o.emplace(P{{3}}); o.reset(); return !o.has_value(); }}"
        elif kind == "inplaceDerived":
            text = f"{P} struct B {{ {body} }}; struct M : B {{}}; inline bool f() {{ tiny::optional_inplace<P, M> o; o.emplace(P{{3}}); o.reset(); return !o.has_value(); }}"
        else:
            opt = "tiny::optional<P>" if kind == "spec" else "tiny::optional<H, &H::p>"
            text = f"{P} }} template <> struct tiny::optional_flag_manipulator<@::P> {{ using P = @::P; {body} }}; namespace @ {{ inline bool f() {{ {opt} o; o.emplace({'P{3}' if kind == 'spec' else 'H{1, P{3}}'}); o.reset(); return !o.has_value(); }}"
        out.append(E(f"flag manipulator ({kind}), {'valid' if not broken else 'broken: ' + broken}", text, broken is None, "manipulator"))
    return out


def monadic(r, cfg, n):
    cpp20 = "c++17" not in vp.CFG[cfg]
    out = []
    kindsOf = ["tiny::optional<int>", "tiny::optional<int, -1>", "tiny::optional_sentinel_via_type<int, tiny::UseDefaultType>", "tiny::optional<double>", "tiny::optional<S, &S::d>", "tiny::optional_aip<int>"]
    if vp.NOBIT in vp.CFG[cfg] or vp.NOUB in vp.CFG[cfg]:
        kindsOf.remove("tiny::optional<S, &S::d>")
    for _ in range(n):
        O = r.choice(kindsOf)
        cat = r.choice(["o", "static_cast<O const &>(o)", "std::move(o)", "static_cast<O const &&>(o)"])
        op = r.choice(["and_then", "transform", "or_else", "value_or", "misc"])
        head = "struct S { int i = 1; double d = 2; }; struct NC { NC(NC const &) = delete; NC(int) {} };"
        if op == "and_then":
            ret, ok = r.choice([("tiny::optional<char>", True), ("std::optional<char>", True), ("tiny::optional<S>", True), ("O const", True), ("int", False), ("void", False), ("int *", False), ("std::nullopt_t", False),
                                ("std::unique_ptr<int>", False), ("std::vector<int>", False), ("std::optional<char> *", False)])
            body = "" if ret == "void" else "return std::nullopt;" if ret == "std::nullopt_t" else f"return {ret.replace(' const', '')}();" if "*" not in ret else "return nullptr;"
            out.append(E(f"{O}: {cat}.and_then of a callback returning {ret}", f"{head} using O = {O}; inline bool f() {{ O o; (void)({cat}.and_then([](auto &&) -> {ret} {{ {body} }})); return true; }}", ok, "and_then"))
        elif op == "transform":
            ret, ok = r.choice([("int", True), ("std::string", True), ("int *", True), ("tiny::optional<int>", True), ("NC", True), ("S const", True), ("std::nullopt_t", False), ("std::in_place_t", False), ("void", False),
                                ("int &", False), ("int const &", False), ("int &&", False), ("std::in_place_t const", False), ("int (&)[3]", False)])
            body = {"void": "", "std::nullopt_t": "return std::nullopt;", "int &": "return gi;", "int const &": "return gi;", "int &&": "return std::move(gi);", "int (&)[3]": "return ga;", "NC": "return NC(1);", "std::in_place_t": "return std::in_place;",
                    "std::in_place_t const": "return std::in_place;", "int *": "return nullptr;"}.get(ret, f"return {ret.replace(' const', '')}();")
            out.append(E(f"{O}: {cat}.transform of a callback returning {ret}", f"{head} inline int gi; inline int ga[3]; using O = {O}; inline bool f() {{ O o; (void)({cat}.transform([](auto &&) -> {ret} {{ {body} }})); return true; }}", ok, "transform"))
        elif op == "or_else":
            ret, ok = r.choice([("O", True), ("std::optional<int>", False), ("tiny::optional<long>", False), ("int", False), ("void", False), ("std::nullopt_t", False), ("O const", True), ("tiny::optional<O>", False)])
            body = "" if ret == "void" else "return std::nullopt;" if ret == "std::nullopt_t" else f"return {ret.replace(' const', '')}();"
            c2 = r.choice(["static_cast<O const &>(o)", "std::move(o)", "o"])
            out.append(E(f"{O}: {c2}.or_else of a callback returning {ret}", f"{head} using O = {O}; inline bool f() {{ O o; (void)({c2}.or_else([]() -> {ret} {{ {body} }})); return true; }}", ok and cpp20, "or_else"))
        elif op == "value_or":
            P, arg, c2, ok = r.choice([("int", "3.5", "o", True), ("int", '"x"', "o", False), ("std::string", '"x"', "o", True), ("std::string", "5", "o", False), ("std::unique_ptr<int>", "nullptr", "std::move(o)", True),
                                       ("std::unique_ptr<int>", "nullptr", "o", False), ("std::vector<int>", "5", "o", False), ("int *", "nullptr", "o", True), ("int *", "0.0", "o", False), ("NC", "1", "std::move(o)", False)])
            out.append(E(f"{c2}.value_or({arg}) of optional<{P}>", f"{head} inline bool f() {{ tiny::optional<{P}> o; (void)({c2}.value_or({arg})); return true; }}", ok, "value_or"))
        else:
            code, ok = r.choice([
                ("O const o(std::in_place, 1); o.reset();", False), ("O o; o.reset();", True), ("O const o(std::in_place, 1); *o = 3;", False), ("O o(std::in_place, 1); *o = 3;", True),
                ("O const o(std::in_place, 1); o = std::nullopt;", False), ("O const o(std::in_place, 1); o.emplace(3);", False), ("O const o(std::in_place, 1); o.value() = 3;", False), ("O o, p; o.swap(p);", True),
                ("O const o; O p; p.swap(const_cast<O const &>(o));", False), ("tiny::optional<NC> a, b; a.swap(b);", False), ("tiny::optional<NC> a; tiny::optional<NC> b(a);", False), ("tiny::optional<NC> a(std::in_place, 1); a.emplace(2);", True),
                ("bool b = O(); (void)b;", False), ("bool b(O{}); (void)b;", True), ("int i = O(); (void)i;", False), ("O o = {std::in_place, 1};", False), ("O o{std::in_place, 1};", True),
                ("O o; o = {};", True), ("O o; if (o) {}", True), ("O o; int x = o + 1; (void)x;", False), ("O o = std::nullopt;", True), ("O o(std::string(\"x\"));", False), ("O o; o = std::string(\"x\");", False),
                ("tiny::optional<S> o; o->i = 1;", True), ("tiny::optional<S> const o; o->i = 1;", False), ("O o; o.nope();", False)])
            oo = r.choice(["tiny::optional<int>", "tiny::optional<int, -1>", "tiny::optional<double>", "tiny::optional_aip<int>", "tiny::optional_sentinel_via_type<int, tiny::UseDefaultType>"])
            out.append(E(f"{oo}: {code}", f"{head} using O = {oo}; inline bool f() {{ if (false) {{ {code} }} return true; }}", ok, "misc"))
    return out


DOC = [
    ("README: double and size", "inline bool f() { std::optional<double> s; tiny::optional<double> t; return !s && !t; }"),
    ("README: tiny::optional<int, -1>", "inline bool f() { tiny::optional<int, -1> t; t = 3; return sizeof(t) == sizeof(int) && *t == 3; }"),
    ("README: make_optional(42.0)", "inline bool f() { return std::is_same_v<decltype(tiny::make_optional(42.0)), tiny::optional<double>>; }"),
    ("README: make_optional<unsigned int, 0>(42u)", "inline bool f() { return *tiny::make_optional<unsigned int, 0>(42u) == 42u; }"),
    ("README: make_optional<Foo>(2, 3.0)", "struct Foo { int v1; double v2; Foo(int a, double b) : v1(a), v2(b) {} }; inline bool f() { return tiny::make_optional<Foo>(2, 3.0)->v1 == 2 && tiny::make_optional<Foo, &Foo::v1, -1>(2, 3.0)->v2 == 3.0; }"),
    ("README: deduction guide", "inline bool f() { return std::is_same_v<decltype(tiny::optional{42}), tiny::optional<int>>; }"),
    ("README: optional_aip<char, 'a'>", "inline bool f() { tiny::optional_aip<char, 'a'> o; return !o; }"),
    ("README: enumeration with sentinel", "enum class MyEnum { Value1, Value2, Max }; inline bool f() { tiny::optional<MyEnum, MyEnum::Max> o; return !o; }"),
    ("README: sentinel_flag_manipulator", "enum class MyEnum { Value1, Value2, Max }; } template <> struct tiny::optional_flag_manipulator<@::MyEnum> : tiny::sentinel_flag_manipulator<@::MyEnum, @::MyEnum::Max> {}; namespace @ { inline bool f() { tiny::optional<MyEnum> o; return !o && sizeof(o) == sizeof(MyEnum); }"),
    ("README: is_compressed, is_tiny_optional_v, version", "inline bool f() { return tiny::is_tiny_optional_v<tiny::optional<int>> && tiny::optional<int>::is_tiny_optional && !tiny::is_tiny_optional_v<std::optional<int>> && !tiny::optional<int>::is_compressed && TINY_OPTIONAL_VERSION > 0; }"),
    ("README: WeirdVector", "struct WeirdVector { tiny::optional<double> x, y, z; tiny::optional<double> length2; }; inline bool f() { WeirdVector w; return !w.x; }"),
]
CHRONO = ("README: optional_sentinel_via_type<std::chrono::microseconds, MicroSecondsSentinel>",
          "struct MicroSecondsSentinel { static constexpr auto value = std::chrono::microseconds::min(); }; inline bool f() { tiny::optional_sentinel_via_type<std::chrono::microseconds, MicroSecondsSentinel> o; return !o && sizeof(o) == sizeof(std::chrono::microseconds); }")


def ns(e, k):
    return f"namespace @ {{ {e['text']} }}".replace("@", f"n{k}")


def rejects(ctx, cfg, entries):
    """All in one translation unit: the compiler has to diagnose every line. Lines without a diagnosis (for example because the same
    template was already diagnosed) are tried again together, then on their own."""
    head = PRE.strip().splitlines()
    rest = list(enumerate(entries))
    for rnd in range(8):
        if not rest or ctx.stop.is_set():
            return []
        src = os.path.join(ctx.dir, f"rej-{cfg}-{id(entries)}.cpp")
        with open(src, "w") as f:
            f.write("\n".join(head + [ns(e, k) for k, e in rest]) + "\nint main() {}\n")
        extra = ["-fsyntax-only", "-ftemplate-backtrace-limit=0", "-ferror-limit=0" if vp.CFG[cfg].startswith("clang") else "-fmax-errors=0"]
        ok, log = ctx.compile(cfg, src, "/dev/null", extra=extra)
        hit = {int(m) - len(head) - 1 for m in re.findall(re.escape(src) + r":(\d+)", log)} if not ok else set()
        new = [x for i, x in enumerate(rest) if i not in hit]
        if len(new) > len(rest) * 0.8:
            rest = new
            break
        rest = new
    return [(cfg, k, e) for k, e in rest]


def single(ctx, x):
    cfg, k, e = x
    if ctx.stop.is_set():
        return
    s = os.path.join(ctx.dir, f"rej1-{cfg}-{id(e)}.cpp")
    text = PRE + ns(e, k) + "\nint main() {}\n"
    with open(s, "w") as f:
        f.write(text)
    ok, _ = ctx.compile(cfg, s, "/dev/null", extra=["-fsyntax-only"])
    if ok:
        ctx.violation({"kind": "program", "expect": "reject", "cfg": cfg, "defs": [], "source": text}, f"{cfg}: {e['desc']}: is accepted although it has to be rejected", ident=e["ident"])


def check(ctx):
    ctx.rule = ("one case = one generated program fragment (integral sentinels of every payload type x literal type x boundary value x route; bool, floating point, enum, "
                "pointer and class sentinels; payload types; member pointers; optional_aip; flag manipulators; monadic callbacks, value_or and other uses; documented "
                "examples), whose acceptability follows from the documented rule; the compiler has to accept and run it, or reject it. Non-trivial: all; the rejected "
                "fragments differ from accepted ones of the same family only in the offending part.")
    cfgs, n, chunks = ["g17", "c20", "g23", "g32", "g17noub", "c17", "g20nobit", "g17nomem"], 130, 1
    if ctx.thorough:
        cfgs = ["g17", "g20", "g23", "c17", "c20", "c23", "g32", "c32", "g17noub", "g20nobit", "g17nomem", "g20nobitmem", "c20noub"]
        n, chunks = 300, 14
    work = []
    r = vp.Deck(f"C14/{ctx.seed}")
    for cfg in cfgs:
        for c in range(chunks):
            es = integral(r, cfg, n) + kinds(r, cfg, n // 2) + members(r, cfg, n // 5) + aip(r, cfg, n // 6) + manips(r, cfg, n // 6) + monadic(r, cfg, n // 2)
            if c == 0:
                es += [E(d, t, True, "documentation") for d, t in DOC]
                if cfg in ("g17", "c20", "g23"):
                    es.append(E(CHRONO[0], CHRONO[1], True, "documentation", ident="readme-chrono-sentinel"))
            es = list({e["desc"]: e for e in es}.values())
            work.append((cfg, c, es))
    retried = []

    def one(w):
        cfg, c, es = w
        if ctx.stop.is_set():
            return
        for e in es:
            ctx.count((cfg, e["desc"]), True, label=e["label"], sample=f"[{cfg}] {e['label']}: {e['desc']}" if ctx.rng.random() < 0.004 else None)
        ctx.configs[cfg] = ctx.configs.get(cfg, 0) + len(es)
        acc = [dict(desc=e["desc"], decl=ns(e, k), code=f"ok = n{k}::f();", ident=e["ident"], what="is accepted but does not work") for k, e in enumerate(es) if e["accept"]]
        table.run(ctx, f"accept{c}", cfg, PRE, acc, count=False)
        retried.extend(rejects(ctx, cfg, [e for e in es if not e["accept"]]))

    ctx.parallel(one, work)
    ctx.parallel(lambda x: single(ctx, x), retried)
    ctx.coverage["rejections decided in isolation"] = len(retried)
