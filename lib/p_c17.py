"""Generated payload classes (random sets of constructors and assignment operators) x argument types x construction routes: tiny against std::optional."""
import vp, table

LEVEL = "exploration"

CTORS = {
    "dflt": ("{X}{C}() : how(1), v(0) {{ rt::log(1, 0); }}", []),
    "int": ("{X}{C}(int x) : how(2), v(x) {{ rt::log(2, x); }}", ["int"]),
    "intl": ("{X}{C}(int & x) : how(3), v(x) {{ rt::log(3, x); x += 1000; }}", ["int"]),
    "intcl": ("{X}{C}(int const & x) : how(4), v(x) {{ rt::log(4, x); }}", ["int"]),
    "intr": ("{X}{C}(int && x) : how(5), v(x) {{ rt::log(5, x); x = -7; }}", ["int"]),
    "double": ("{X}{C}(double x) : how(6), v(static_cast<long>(x * 2)) {{ rt::log(6, v); }}", ["double"]),
    "cstr": ("{X}{C}(char const * x) : how(7), v(x ? static_cast<long>(std::strlen(x)) : -1) {{ rt::log(7, v); }}", ["cstr"]),
    "othcl": ("{X}{C}(rt::Other const & x) : how(8), v(x.v) {{ rt::log(8, v); }}", ["Other"]),
    "othr": ("{X}{C}(rt::Other && x) : how(9), v(x.v) {{ rt::log(9, v); x.v = -9; }}", ["Other"]),
    "othl": ("{X}{C}(rt::Other & x) : how(10), v(x.v) {{ rt::log(10, v); x.v += 100; }}", ["Other"]),
    "othcr": ("{X}{C}(rt::Other const && x) : how(11), v(x.v) {{ rt::log(11, v); }}", ["Other"]),
    "int2": ("{X}{C}(int x, int y) : how(12), v(x * 7 + y) {{ rt::log(12, v); }}", ["2"]),
    "intd2": ("{X}{C}(int & x, double && y) : how(13), v(x * 7 + static_cast<long>(y)) {{ rt::log(13, v); y = 0; }}", ["2"]),
    "il": ("{X}{C}(std::initializer_list<int> l) : how(14), v(static_cast<long>(l.size())) {{ for (int i : l) {{ v = v * 10 + i; }} rt::log(14, v); }}", ["il"]),
    "ilint": ("{X}{C}(std::initializer_list<int> l, int x) : how(15), v(static_cast<long>(l.size()) * 100 + x) {{ rt::log(15, v); }}", ["il"]),
    "illv": ("{X}{C}(std::initializer_list<int> & l, rt::Other && x) : how(16), v(static_cast<long>(l.size()) * 100 + x.v) {{ rt::log(16, v); x.v = -1; }}", ["il"]),
    "greedy": ("template <class T, std::enable_if_t<!std::is_same_v<rt::Bare<T>, {C}> && !std::is_same_v<rt::Bare<T>, rt::Make>, int> = 0> {X}{C}(T &&) : how(17), v(std::is_lvalue_reference_v<T>) {{ rt::log(17, v); }}", []),
    "arith": ("template <class T, std::enable_if_t<std::is_arithmetic_v<rt::Bare<T>>, int> = 0> {X}{C}(T && t) : how(18), v(static_cast<long>(t)) {{ rt::log(18, std::is_const_v<std::remove_reference_t<T>>); }}", ["int"]),
    "nullopt": ("{X}{C}(std::nullopt_t) : how(19), v(0) {{ rt::log(19, 0); }}", ["nullopt"]),
    "inplace": ("{X}{C}(std::in_place_t) : how(20), v(0) {{ rt::log(20, 0); }}", ["in_place"]),
    "inplaceint": ("{X}{C}(std::in_place_t, int x) : how(21), v(x) {{ rt::log(21, x); }}", ["in_place"]),
    "bool": ("{X}{C}(bool b) : how(22), v(b) {{ rt::log(22, b); }}", ["bool"]),
    "nullptr": ("{X}{C}(std::nullptr_t) : how(23), v(0) {{ rt::log(23, 0); }}", ["nullptr"]),
    "string": ("{X}{C}(std::string s) : how(24), v(static_cast<long>(s.size())) {{ rt::log(24, v); }}", ["string"]),
    "pack": ("template <class A, class B, class... R> {X}{C}(A && a, B && b, R &&...) : how(25), v(std::is_lvalue_reference_v<A> * 2 + std::is_lvalue_reference_v<B>) {{ rt::log(25, v); }}", ["2"]),
}
ASSIGN = {
    "int": "{C} & operator=(int x) {{ v = x; how = 30; rt::log(30, x); return *this; }}",
    "intl": "{C} & operator=(int & x) {{ v = x; how = 31; rt::log(31, x); x += 50; return *this; }}",
    "intr": "{C} & operator=(int && x) {{ v = x; how = 32; rt::log(32, x); x = -5; return *this; }}",
    "othcl": "{C} & operator=(rt::Other const & x) {{ v = x.v; how = 33; rt::log(33, v); return *this; }}",
    "othr": "{C} & operator=(rt::Other && x) {{ v = x.v; how = 34; rt::log(34, v); x.v = -3; return *this; }}",
    "any": "template <class T, std::enable_if_t<!std::is_same_v<rt::Bare<T>, {C}>, int> = 0> {C} & operator=(T &&) {{ how = 35; rt::log(35, std::is_lvalue_reference_v<T>); return *this; }}",
    "cstr": "{C} & operator=(char const * s) {{ how = 36; rt::log(36, s ? static_cast<long>(std::strlen(s)) : -1); return *this; }}",
}
COPY = [
    # copy/move constructor, copy/move assignment: logged, deleted, or absent
    ("{C}({C} const & o) : how(50), v(o.v) {{ rt::log(50, v); }} {C}({C} && o) noexcept : how(51), v(o.v) {{ rt::log(51, v); o.v = -11; }} {C} & operator=({C} const & o) {{ v = o.v; how = 52; rt::log(52, v); return *this; }} {C} & operator=({C} && o) {{ v = o.v; how = 53; rt::log(53, v); o.v = -12; return *this; }}", "full"),
    ("{C}({C} const & o) : how(50), v(o.v) {{ rt::log(50, v); }} {C} & operator=({C} const & o) {{ v = o.v; how = 52; rt::log(52, v); return *this; }}", "copyonly"),
    ("{C}({C} && o) : how(51), v(o.v) {{ rt::log(51, v); o.v = -11; }} {C} & operator=({C} && o) {{ v = o.v; how = 53; rt::log(53, v); o.v = -12; return *this; }}", "moveonly"),
    ("{C}({C} const & o) : how(50), v(o.v) {{ rt::log(50, v); }} {C}({C} && o) noexcept : how(51), v(o.v) {{ rt::log(51, v); o.v = -11; }} {C} & operator=({C} const &) = delete;", "noassign"),
    ("{C}({C} const &) = delete; {C} & operator=({C} const &) = delete;", "pinned"),
]
ARGS = {
    "int": ["int", "int &", "int const &", "int const"], "double": ["double", "double &", "double const &"], "cstr": ["char const *", "char const * &", "char const * const &"],
    "Other": ["rt::Other", "rt::Other &", "rt::Other const &", "rt::Other const"], "il": ["int", "rt::Other", "int &"], "2": ["int", "int &"], "nullopt": ["std::nullopt_t", "std::nullopt_t const &"],
    "in_place": ["std::in_place_t", "std::in_place_t const &"], "bool": ["bool", "bool &"], "nullptr": ["std::nullptr_t"], "string": ["std::string", "std::string &", "std::string const &"],
}
MISC = ["rt::Unrelated", "rt::Unrelated &", "std::nullopt_t const &", "std::in_place_t const &", "bool", "int", "double", "char const *"]


def gen_class(r, i):
    c = f"P{i}"
    names = r.sample(list(CTORS), r.choice([1, 2, 3, 3, 4, 5, 6]))
    exp = {n: r.random() < 0.3 for n in names}
    copy, copyName = r.choice(COPY)
    asg = r.sample(list(ASSIGN), r.choice([0, 0, 1, 2]))
    t = [f"struct {c} {{ int how; long v; int flag = 0; double dflag = 0;",
         f"{c}(rt::Make, long s) : how(90), v(s) {{ rt::log(90, s); }}", f"~{c}() {{ rt::log(99, 0); }}", copy.format(C=c)]
    t += [CTORS[n][0].format(C=c, X="explicit " if exp[n] else "") for n in names]
    t += [ASSIGN[a].format(C=c) for a in asg]
    t.append("};")
    t.append(f"struct M{i} {{ static bool is_empty({c} const & p) noexcept {{ return p.flag == 77; }} static void init_empty_flag({c} & p) noexcept {{ p.flag = 77; }} "
             f"static void invalidate_empty_flag({c} &) noexcept {{}} }};")
    t.append(f"template <class C> struct Cv{i} {{ long v; explicit Cv{i}(rt::Make, long s) : v(s) {{}} C operator()() const; {'explicit ' if r.random() < 0.4 else ''}operator {c}() {r.choice(['const', '&&', '&', 'const &'])} {{ rt::log(60, v); return {c}(rt::Make{{}}, v); }} }};"
             if copyName != "pinned" or r.random() < 0.5 else f"template <class C> struct Cv{i} {{ long v; explicit Cv{i}(rt::Make, long s) : v(s) {{}} operator int() const {{ rt::log(61, v); return static_cast<int>(v); }} }};")
    t.append(f"struct D{i} : {c} {{ D{i}(rt::Make m, long s) : {c}(m, s) {{}} D{i}(D{i} const &) = default; }};" if copyName in ("full", "copyonly", "noassign") else f"struct D{i} {{ long v; D{i}(rt::Make, long s) : v(s) {{}} }};")
    args = []
    for n in names:
        for k in CTORS[n][1]:
            args += ARGS[k]
    args += [f"{c}", f"{c} &", f"{c} const &", f"{c} const", f"Cv{i}<int>", f"Cv{i}<int> &", f"Cv{i}<int> const &", f"D{i}", f"D{i} &", f"D{i} const &"]
    args += r.sample(MISC, 3)
    desc = f"{copyName}; " + ", ".join(n + ("(explicit)" if exp[n] else "") for n in names) + (("; assign " + ", ".join(asg)) if asg else "")
    return c, "\n".join(t), list(dict.fromkeys(args)), desc


SCALARS = {
    "int": ["int", "int &", "int const &", "double", "bool", "char const *", "std::nullptr_t", "std::nullopt_t const &", "std::string", "rt::Unrelated"],
    "double": ["double", "double &", "int", "int const &", "bool", "std::nullptr_t", "char const *"],
    "bool": ["bool", "bool &", "int", "double", "char const *", "std::nullptr_t", "std::string", "std::nullopt_t const &", "std::in_place_t"],
    "char const *": ["char const *", "char const * &", "std::nullptr_t", "int", "std::string", "bool"],
    "std::string": ["std::string", "std::string &", "std::string const &", "std::string const", "char const *", "int", "std::vector<int>"],
    "std::vector<int>": ["std::vector<int>", "std::vector<int> &", "std::vector<int> const &", "int", "std::nullptr_t", "std::string"],
}
SKINDS = {
    "int": ["tiny::optional<int>", "tiny::optional<int, -4321>", "tiny::optional_aip<int>", "tiny::optional<int, 987654321ll>"],
    "double": ["tiny::optional<double>"],
    "bool": ["tiny::optional<bool>"],
    "char const *": ["tiny::optional<char const *>"],
    "std::string": ["tiny::optional<std::string>"],
    "std::vector<int>": ["tiny::optional<std::vector<int>>"],
}

FIXED = [
    ("nested: from an empty inner optional", "using I = tiny::optional<int>; using O = tiny::optional<I>; O o(I{}); ok = o.has_value() && !o->has_value();"),
    ("nested: from nullopt", "using I = tiny::optional<int>; using O = tiny::optional<I>; O o(std::nullopt); O p = {}; O q; q.emplace(5); q = {}; ok = !o && !p && !q;"),
    ("nested: from a value", "using I = tiny::optional<int>; using O = tiny::optional<I>; O o(7); O p = 7; ok = o && *o && **o == 7 && p && **p == 7;"),
    ("nested: in_place nullopt", "using I = tiny::optional<int>; using O = tiny::optional<I>; O o(std::in_place, std::nullopt); O p; p.emplace(std::nullopt); O q; q.emplace(); ok = o && !*o && p && !*p && q && !*q;"),
    ("nested: assignment of an inner optional", "using I = tiny::optional<double>; using O = tiny::optional<I>; O o; o = I(); ok = o && !*o; o = I(2.5); ok = ok && **o == 2.5; o = std::nullopt; ok = ok && !o;"),
    ("nested: std::optional inside", "using I = std::optional<int>; using O = tiny::optional<I>; O o(I{}); O p = I(3); O q(5); ok = o && !*o && **p == 3 && **q == 5;"),
    ("nested: tiny::optional inside std::optional", "using I = tiny::optional<int, -1>; using O = std::optional<I>; O o(I{}); O p = I(3); O q(5); O e; ok = o && !*o && **p == 3 && **q == 5 && !e;"),
    ("deduction: copy candidate", "tiny::optional<int> a(3); tiny::optional b(a); tiny::optional c{a}; tiny::optional d = std::move(a); ok = std::is_same_v<decltype(b), tiny::optional<int>> && std::is_same_v<decltype(c), tiny::optional<int>> && std::is_same_v<decltype(d), tiny::optional<int>> && *b == 3;"),
    ("deduction: copy candidate with sentinel", "tiny::optional<int, -1> a(3); tiny::optional b(a); ok = std::is_same_v<decltype(b), tiny::optional<int, -1>> && *b == 3;"),
    ("deduction: array and function decay", "char const arr[] = \"xyz\"; tiny::optional a(arr); tiny::optional b(\"lit\"); tiny::optional c(fn); tiny::optional d(&fn); ok = std::is_same_v<decltype(a), tiny::optional<char const *>> && std::is_same_v<decltype(b), tiny::optional<char const *>> && std::is_same_v<decltype(c), tiny::optional<int (*)(int)>> && std::is_same_v<decltype(d), tiny::optional<int (*)(int)>> && *c == &fn && *a == arr;"),
    ("deduction: from const lvalue", "int const i = 4; tiny::optional a(i); tiny::optional b = i; tiny::optional c{i}; ok = std::is_same_v<decltype(a), tiny::optional<int>> && std::is_same_v<decltype(b), tiny::optional<int>> && std::is_same_v<decltype(c), tiny::optional<int>> && *a == 4;"),
    ("deduction: std::optional as value", "std::optional<int> s(3); tiny::optional a(s); ok = std::is_same_v<decltype(a), tiny::optional<std::optional<int>>> && a->value() == 3;"),
    ("make_optional: decay", "char const arr[] = \"xyz\"; auto a = tiny::make_optional(arr); auto c = tiny::make_optional(fn); int const i = 2; auto d = tiny::make_optional(i); ok = std::is_same_v<decltype(a), tiny::optional<char const *>> && std::is_same_v<decltype(c), tiny::optional<int (*)(int)>> && std::is_same_v<decltype(d), tiny::optional<int>>;"),
    ("make_optional: no arguments", "auto a = tiny::make_optional<int>(); auto b = tiny::make_optional<std::string>(); auto c = tiny::make_optional<int, -1>(); ok = a && *a == 0 && b && b->empty() && c && *c == 0 && std::is_same_v<decltype(c), tiny::optional<int, -1>>;"),
    ("make_optional: initializer_list", "auto a = tiny::make_optional<std::vector<int>>({1, 2, 3}); auto b = tiny::make_optional<std::string>({'a', 'b'}, std::allocator<char>()); ok = a->size() == 3 && *b == \"ab\";"),
    ("make_optional: sizes", "auto a = tiny::make_optional<std::vector<int>>(3, 7); auto b = tiny::make_optional<std::string>(3, 'x'); ok = a->size() == 3 && (*a)[2] == 7 && *b == \"xxx\";"),
    ("make_optional: sentinel, one argument of payload type", "auto a = tiny::make_optional<unsigned, 0>(42u); auto b = tiny::make_optional<unsigned, 0>(42); ok = std::is_same_v<decltype(a), tiny::optional<unsigned, 0>> && std::is_same_v<decltype(b), tiny::optional<unsigned, 0>> && *a == 42 && *b == 42 && sizeof(a) == sizeof(unsigned);"),
    ("make_optional: member", "auto a = tiny::make_optional<FM, &FM::d>(3, 4.0); auto b = tiny::make_optional<FM, &FM::i, -1>(3, 4.0); auto c = tiny::make_optional<FM, &FM::i, -1>(FM(6, 1.0)); ok = a->i == 3 && b->d == 4.0 && c->i == 6 && std::is_same_v<decltype(a), tiny::optional<FM, &FM::d>> && std::is_same_v<decltype(b), tiny::optional<FM, &FM::i, -1>> && std::is_same_v<decltype(c), tiny::optional<FM, &FM::i, -1>>;"),
    ("make_optional: move-only", "auto a = tiny::make_optional(std::make_unique<int>(3)); auto b = tiny::make_optional<std::unique_ptr<int>>(new int(4)); ok = **a == 3 && **b == 4;"),
    ("make_optional: pinned payload", "struct Pin { int x; Pin(int a, int b) : x(a + b) {} Pin(Pin const &) = delete; }; auto a = tiny::make_optional<Pin>(1, 2); ok = a->x == 3;"),
    ("list initialisation of a vector payload", "tiny::optional<std::vector<int>> a({1, 2, 3}); tiny::optional<std::vector<int>> b = std::vector<int>{4, 5}; std::optional<std::vector<int>> c({1, 2, 3}); ok = *a == *c && b->size() == 2;"),
    ("assignment of a braced list", "tiny::optional<std::vector<int>> a; a = {1, 2, 3}; tiny::optional<std::string> b; b = {'x', 'y'}; std::optional<std::vector<int>> c; c = {1, 2, 3}; ok = *a == *c && *b == \"xy\";"),
    ("assignment of {} to every kind", "tiny::optional<int> a(1); a = {}; tiny::optional<int, -1> b(1); b = {}; tiny::optional<std::string> c(\"x\"); c = {}; tiny::optional<double> d(2.0); d = {}; tiny::optional<FM, &FM::i, -1> e(std::in_place, 1, 2.0); e = {}; tiny::optional_aip<int> f(3); f = {}; ok = !a && !b && !c && !d && !e && !f;"),
    ("pair and tuple payloads", "tiny::optional<std::pair<int, std::string>> a(std::in_place, 1, \"x\"); tiny::optional<std::pair<int, std::string>> b = std::pair<int, std::string>(2, \"y\"); tiny::optional<std::pair<long, std::string>> c(std::pair<int, char const *>(3, \"z\")); ok = a->first == 1 && b->second == \"y\" && c->first == 3 && c->second == \"z\";"),
    ("piecewise", "tiny::optional<std::pair<std::string, std::string>> a(std::in_place, std::piecewise_construct, std::make_tuple(3, 'a'), std::make_tuple(2, 'b')); ok = a->first == \"aaa\" && a->second == \"bb\";"),
    ("base class of an optional", "tiny::optional_sentinel_via_type<int, tiny::UseDefaultType> a(3); tiny::optional<int> b(4); a = b; ok = *a == 4; tiny::optional_sentinel_via_type<int, tiny::UseDefaultType> c(b); ok = ok && *c == 4;"),
    ("aggregate member initialisation", "struct A { int i; tiny::optional<double> d; tiny::optional<int, -1> e; }; A a{1, 2.5, 3}; A b{1, std::nullopt, {}}; A c{1}; ok = *a.d == 2.5 && *a.e == 3 && !b.d && !b.e && !c.d && !c.e;"),
    ("const optionals", "tiny::optional<int> const a; tiny::optional<int> const b(3); tiny::optional<int const> c(4); tiny::optional<int const, -1> d; d.emplace(5); ok = !a && *b == 3 && *c == 4 && *d == 5;"),
    ("conditional operator with nullopt", "bool t = true; tiny::optional<int> a = t ? tiny::optional<int>(3) : std::nullopt; ok = *a == 3;"),
    ("containers construct in place", "std::vector<tiny::optional<std::string>> v; v.emplace_back(\"x\"); v.emplace_back(std::in_place, 3, 'y'); v.emplace_back(std::nullopt); v.emplace_back(); v.push_back(\"z\"); ok = *v[0] == \"x\" && *v[1] == \"yyy\" && !v[2] && !v[3] && *v[4] == \"z\";"),
]
FPRE = """
#include <memory>
#include <tuple>
static int fn(int x) { return x; }
struct FM { int i; double d; FM(int a, double b) : i(a), d(b) {} };
"""


def check(ctx):
    ctx.rule = ("one case = (payload, optional kind, argument list with value categories, seed) run through every construction and assignment route (direct, copy, list, in_place, "
                "initializer_list, assignment to empty/engaged, emplace, make_optional, function argument, return, static_cast, aggregate, deduction) on tiny and std::optional; "
                "acceptance, selected payload constructor, number of payload operations, final value and effect on the arguments have to agree. Payload classes are generated with "
                "random sets of (explicit) constructors, assignment operators and copy/move operations. Non-trivial: at least one route is accepted.")
    cfgs, ncls = ["g17", "g20", "c20", "c17", "g32", "g23n"], 6
    if ctx.thorough:
        cfgs, ncls = ["g17", "g20", "g23", "g23n", "c17", "c20", "c23", "c20n", "g32", "c32", "g17noub", "g20nobitmem", "g17nomem", "casan", "gasan"], 90
    work = []
    for cfg in cfgs:
        c = vp.CFG[cfg]
        nomem, nobit = vp.NOMEM in c or vp.NOUB in c, vp.NOBIT in c or vp.NOUB in c
        r = ctx.rng
        batch = []
        for i in range(ncls):
            P, text, args, desc = gen_class(r, i)
            kinds = [f"tiny::optional<{P}>", f"tiny::optional_inplace<{P}, M{i}>", f"tiny::optional<{P}, &{P}::flag, -77>"]
            if not nobit or nomem:
                kinds += [f"tiny::optional<{P}, &{P}::dflag>"]
            r.shuffle(kinds)
            kinds = kinds[:2]
            pre = '#include "routes.h"\n' + text
            es = []
            for T in kinds:
                for a in args:
                    es.append(dict(desc=f"{T} from {a}; payload {desc}", code=f"ok = rt::single<{T}, std::optional<{P}>, {a}>({r.randint(0, 60)});", control=f"ok = rt::single<std::optional<{P}>, std::optional<{P}>, {a}>(7);", label="one argument"))
                es.append(dict(desc=f"{T} from nothing; payload {desc}", code=f"ok = rt::nothing<{T}, std::optional<{P}>>({r.randint(0, 60)});", control=f"ok = rt::nothing<std::optional<{P}>, std::optional<{P}>>(7);", label="no argument"))
                pool = [a for a in args if "Cv" not in a and "D" not in a] + ["int", "double", "int &"]
                for _ in range(4):
                    a, b = r.choice(pool), r.choice(pool)
                    es.append(dict(desc=f"{T} from {a}, {b}; payload {desc}", code=f"ok = rt::two<{T}, std::optional<{P}>, {a}, {b}>({r.randint(0, 60)});", control=f"ok = rt::two<std::optional<{P}>, std::optional<{P}>, {a}, {b}>(7);", label="two arguments"))
            for a in (P, f"{P} &", f"{P} const &", f"{P} const"):
                es.append(dict(desc=f"make_optional and deduction from {a}; payload {desc}", code=f"ok = rt::deduces<{a}>({r.randint(0, 60)});", label="deduction"))
            batch.append((pre, es))
        es = []
        for P, kinds in SKINDS.items():
            for T in kinds:
                for a in SCALARS[P]:
                    for _ in range(2):
                        es.append(dict(desc=f"{T} from {a} #{_}", code=f"ok = rt::single<{T}, std::optional<{P}>, {a}>({r.randint(0, 60)});", control=f"ok = rt::single<std::optional<{P}>, std::optional<{P}>, {a}>(7);", label="standard payload"))
                es.append(dict(desc=f"{T} from nothing", code=f"ok = rt::nothing<{T}, std::optional<{P}>>({r.randint(0, 60)});", control=f"ok = rt::nothing<std::optional<{P}>, std::optional<{P}>>(7);", label="standard payload"))
                a, b = r.choice(SCALARS[P]), r.choice(SCALARS[P])
                es.append(dict(desc=f"{T} from {a}, {b}", code=f"ok = rt::two<{T}, std::optional<{P}>, {a}, {b}>({r.randint(0, 60)});", control=f"ok = rt::two<std::optional<{P}>, std::optional<{P}>, {a}, {b}>(7);", label="standard payload"))
            for a in (P, f"{P} &", f"{P} const &"):
                es.append(dict(desc=f"make_optional and deduction from {a}", code=f"ok = rt::deduces<{a}>({r.randint(0, 60)});", label="deduction"))
        fixed = [e for e in FIXED if not (nobit and not nomem and "&FM::d" in e[1])]
        es += [dict(desc=d, code=code, label="fixed program") for d, code in fixed]
        batch.append(('#include "routes.h"\n' + FPRE, es))
        for k, (pre, es) in enumerate(batch):
            work.append((cfg, k, pre, es))
    work.sort(key=lambda w: -len(w[3]))
    ctx.parallel(lambda w: table.run(ctx, f"routes{w[1]}", w[0], w[2], w[3], chunk=200), work)
