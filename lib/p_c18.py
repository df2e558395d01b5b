"""Interoperability of units with equal settings (shared objects, randomly chosen unit per operation), coexistence of units with different
settings, and failure to link when units with different settings exchange optionals."""
import itertools, json, os, re
import vp

LEVEL = "exploration"

# Effective settings (unused bits off, members off) of the configurations.
def setting(cfg):
    c = vp.CFG[cfg]
    return (vp.NOUB in c or vp.NOBIT in c, vp.NOUB in c or vp.NOMEM in c)


PRE = """#include <memory>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <tiny/optional.h>
struct St { int i; double d; bool b; char * p; float f; unsigned char u; int (*fp)(int); };
struct Nm { std::string s; short k; };
enum class En : short { a, z = 7 };
struct Cus { int x; };
struct Tag {};
namespace tiny { template <> struct optional_flag_manipulator<Cus> { static bool is_empty(Cus const & c) noexcept { return c.x == -3; } static void init_empty_flag(Cus & c) noexcept { c.x = -3; } static void invalidate_empty_flag(Cus &) noexcept {} }; }
inline bool volatile gUnknown = false;
struct Man { template <class T> static bool is_empty(T const &) noexcept { return gUnknown; } template <class T> static void init_empty_flag(T &) noexcept {} template <class T> static void invalidate_empty_flag(T &) noexcept {} };
struct V9 { static constexpr int value = 9; };
struct VD { static constexpr double value = 2.5; };
struct HasCus { int a; Cus c; };
"""
PAY = ["int", "bool", "float", "double", "long double", "char", "char *", "void *", "void const *", "int (*)(int)", "void (*)() noexcept", "En", "St", "Nm", "std::string", "std::vector<int>",
       "int St::*", "Cus", "int const", "double const", "bool volatile", "std::pair<int, double>", "std::unique_ptr<int>", "tiny::optional<int>", "tiny::optional<double>", "std::optional<bool>",
       "unsigned long long", "char16_t", "St *", "HasCus"]
ALWAYS = ["tiny::optional<int, {n}>", "tiny::optional<unsigned char, {n}>", "tiny::optional<En, En::z>", "tiny::optional<bool, false>", "tiny::optional<char *, nullptr>", "tiny::optional<St, &St::i, {n}>",
          "tiny::optional<Nm, &Nm::k, {n}>", "tiny::optional_sentinel_via_type<int, V9>", "tiny::optional_sentinel_via_type<double, VD>", "tiny::optional_sentinel_via_type<St, V9, &St::i>",
          "tiny::optional_inplace<int, Man>", "tiny::optional_inplace<std::string, Man>", "tiny::optional_inplace<St, Man>", "tiny::optional_aip<int>", "tiny::optional_aip<unsigned short>", "tiny::optional_aip<long long>",
          "tiny::optional_aip<int, {n}>", "tiny::optional<HasCus, &HasCus::c>", "tiny::optional<St, &St::u, {n}>"]
BITMEM = ["tiny::optional<St, &St::d>", "tiny::optional<St, &St::b>", "tiny::optional<St, &St::p>", "tiny::optional<St, &St::f>", "tiny::optional<St, &St::fp>"]
AIPBIT = ["tiny::optional_aip<double>", "tiny::optional_aip<bool>", "tiny::optional_aip<char *>"]

FORMS = [  # (declaration in the using unit, use, definition in the defining unit)
    ("by value", "void {f}({T});", "{f}(mk<{T}>());", "void {f}({T}) {{}}"),
    ("const reference", "void {f}({T} const &);", "{f}(mk<{T}>());", "void {f}({T} const &) {{}}"),
    ("rvalue reference", "void {f}({T} &&);", "{f}(mk<{T}>());", "void {f}({T} &&) {{}}"),
    ("pointer", "void {f}({T} *);", "{f}(nullptr);", "void {f}({T} *) {{}}"),
    ("second parameter", "int {f}(int, {T} const *);", "{f}(1, nullptr);", "int {f}(int, {T} const *) {{ return 0; }}"),
    ("vector of optionals", "void {f}(std::vector<{T}> const &);", "{f}({{}});", "void {f}(std::vector<{T}> const &) {{}}"),
    ("map with optionals", "void {f}(std::map<int, {T}> &);", "{{ static std::map<int, {T}> x; {f}(x); }}", "void {f}(std::map<int, {T}> &) {{}}"),
    ("unique_ptr", "void {f}(std::unique_ptr<{T}>);", "{f}(nullptr);", "void {f}(std::unique_ptr<{T}>) {{}}"),
    ("std::function", "void {f}(std::function<int({T} const &)> const &);", "{f}({{}});", "void {f}(std::function<int({T} const &)> const &) {{}}"),
    ("function pointer", "void {f}({T} (*)());", "{f}(nullptr);", "void {f}({T} (*)()) {{}}"),
    ("nested optional", "void {f}(tiny::optional<{T}> *);", "{f}(nullptr);", "void {f}(tiny::optional<{T}> *) {{}}"),
    ("inside std::optional", "void {f}(std::optional<{T}> *);", "{f}(nullptr);", "void {f}(std::optional<{T}> *) {{}}"),
    ("array", "void {f}({T} (&)[3]);", "{f}(*static_cast<{T} (*)[3]>(nullptr));", "void {f}({T} (&)[3]) {{}}"),
    ("result of a function template", "template <class X> X * {f}(); extern template {T} * {f}<{T}>();", "{f}<{T}>();", "template <class X> X * {f}() {{ return nullptr; }} template {T} * {f}<{T}>();"),
    ("member function", "struct C{f} {{ void {f}({T} const &); }};", "C{f}().{f}(mk<{T}>());", "struct C{f} {{ void {f}({T} const &); }}; void C{f}::{f}({T} const &) {{}}"),
    ("constructor", "struct C{f} {{ C{f}({T} *); }};", "C{f}{{static_cast<{T} *>(nullptr)}};", "struct C{f} {{ C{f}({T} *); }}; C{f}::C{f}({T} *) {{}}"),
    ("class template", "template <class X> struct C{f} {{ static void {f}(); }};", "C{f}<{T}>::{f}();", "template <class X> struct C{f} {{ static void {f}(); }}; template <class X> void C{f}<X>::{f}() {{}} template struct C{f}<{T}>;"),
    ("operator", "struct C{f} {{ int x; }}; void operator+(C{f}, {T} const &);", "C{f}{{1}} + mk<{T}>();", "struct C{f} {{ int x; }}; void operator+(C{f}, {T} const &) {{}}"),
]
MK = "template <class T> T && mk() { static T * volatile p = nullptr; return static_cast<T &&>(*p); }\n"


def types(r, k):
    """Optional types with the settings in which they are allowed."""
    res = []
    for _ in range(k):
        x = r.random()
        if x < 0.45:
            res.append((f"tiny::optional<{r.choice(PAY)}>", "all"))
        elif x < 0.85:
            res.append((r.choice(ALWAYS).format(n=r.randint(0, 120)), "all"))
        elif x < 0.95:
            res.append((r.choice(BITMEM), "bitmem"))
        else:
            res.append((r.choice(AIPBIT), "bit"))
    return res


def allowed(kind, s):
    nobit, nomem = s
    if kind == "bitmem":
        return not nobit or nomem
    if kind == "bit":
        return not nobit
    return True


def ldir(cfg):
    return ["-m32"] if "-m32" in vp.CFG[cfg] else []


def linkcase(ctx, idx, a, b, n):
    """Unit a uses, unit b defines. All functions have to be missing if the settings differ, none if they are the same."""
    r = ctx.rngs[idx]
    sa, sb = setting(a), setting(b)
    entries = []
    for i, (T, kind) in enumerate(types(r, n)):
        if not (allowed(kind, sa) and allowed(kind, sb)):
            continue
        if "nullptr" in T and ("clang" in vp.CFG[a]) != ("clang" in vp.CFG[b]):
            continue  # the compilers themselves mangle a nullptr template argument differently
        form = r.choice(FORMS)
        byValue = form[0] in ("by value",) and ("unique_ptr" in T)
        if byValue:
            form = FORMS[1]
        if form[0] in ("array",) and "volatile" in T:
            form = FORMS[1]
        entries.append((f"xf{i}x", T, form))
    if not entries:
        return

    def sources(es):
        use = PRE + MK + "\n".join(f[1].format(f=n, T=f"T{n}") for n, T, f in es)
        alias = "\n".join(f"using T{n} = {T};" for n, T, f in es)
        user = PRE + MK + alias + "\n" + "\n".join(f[1].format(f=n, T=f"T{n}") for n, T, f in es)
        user += "\nint main(int argc, char **) { if (argc > 1) {\n" + "\n".join("  " + f[2].format(f=n, T=f"T{n}") for n, T, f in es) + "\n} }\n"
        defi = PRE + alias + "\n" + "\n".join(f[3].format(f=n, T=f"T{n}") for n, T, f in es)
        return user, defi

    def attempt(es, tag):
        user, defi = sources(es)
        o = []
        for cfg, text, w in ((a, user, "u"), (b, defi, "d")):
            src = os.path.join(ctx.dir, f"l{idx}{tag}{w}.cpp")
            open(src, "w").write(text)
            ok, log = ctx.compile(cfg, src, src[:-4] + ".o", link=False)
            if not ok:
                return None, log, user, defi
            o.append(src[:-4] + ".o")
        exe = os.path.join(ctx.dir, f"l{idx}{tag}")
        rc, out, err = ctx.run_cmd(["g++", *ldir(a), *o, "-o", exe])
        missing = set(re.findall(r"undefined reference to [`'].*?(xf\d+x)", err))
        if rc == 0:
            rc2, _, _ = ctx.run_cmd([exe])
            if rc2 != 0:
                return None, f"the linked program returns {rc2}", user, defi
        elif not missing:
            raise vp.HarnessError(f"linker: {err[-1500:]}")
        for f in o + ([exe] if rc == 0 else []):
            os.remove(f)
        return missing, err, user, defi

    missing, log, user, defi = attempt(entries, "")
    if missing is None:
        # which entry?
        for e in entries:
            mi, log1, user, defi = attempt([e], "s")
            if mi is None:
                ctx.violation({"kind": "program", "expect": "links", "links": sa == sb, "ldflags": ldir(a), "source": "", "parts": [{"source": user, "cfg": a}, {"source": defi, "cfg": b}]},
                              f"link {a}/{b}: {e[1]} ({e[2][0]}): does not compile: " + " | ".join([l for l in log1.splitlines() if "error:" in l][:2]))
                return
        raise vp.HarnessError(f"link {a}/{b}: {log[-1500:]}")
    for e in entries:
        must = sa != sb
        ctx.count((a, b, e[1], e[2][0]), True, label="settings differ" if must else "settings equal",
                  sample=f"[{a} uses, {b} defines] {e[1]} as {e[2][0]}: {'must not link' if must else 'must link'}" if ctx.rngs[idx].random() < 0.02 else None)
        if (e[0] in missing) != must:
            _, _, user, defi = attempt([e], "v")
            ctx.violation({"kind": "program", "expect": "links", "links": not must, "ldflags": ldir(a), "source": "", "parts": [{"source": user, "cfg": a}, {"source": defi, "cfg": b}]},
                          f"link {a}/{b}: {e[1]} ({e[2][0]}) {'links although the settings differ' if must else 'does not link although the settings are equal'}")
            return
    ctx.configs[f"link/{a}/{b}"] = len(entries)


MAP = "{ global: ops_A; local: *; };\n"


def unit(ctx, cfg):
    so = os.path.join(ctx.dir, f"unit-{cfg}.so")
    mp = os.path.join(ctx.dir, "unit.map")
    if not os.path.exists(mp):
        open(mp, "w").write(MAP)
    defs = ["UNIT=A"] + (["NOBITMEM"] if setting(cfg) == (True, False) else [])
    ok, log = ctx.compile(cfg, os.path.join(vp.VERIF, "t", "interop_unit.cpp"), so, defs, ["-fPIC", "-shared", f"-Wl,--version-script={mp}"])
    return so, ok, log


def driver(ctx, bits, defs=(), extra=(), name="driver"):
    exe = os.path.join(ctx.dir, f"{name}-{bits}")
    ok, log = ctx.compile("g32" if bits == 32 else "g17", os.path.join(vp.VERIF, "t", "interop.cpp"), exe, defs, list(extra) + ["-ldl"])
    if not ok:
        raise vp.HarnessError(log[:2000])
    return exe


def bits(cfg):
    return 32 if "-m32" in vp.CFG[cfg] else 64


def runpbt(ctx, key, cmd, env, cases, rep):
    st = os.path.join(ctx.dir, key.replace("/", "_") + ".json")
    e = dict(vp.RUNENV, **env)
    import subprocess
    p = subprocess.run(cmd + ["--run", "--seed", str(ctx.seed), "--cases", str(cases), "--stats", st], capture_output=True, text=True, errors="replace", env=e, timeout=800)
    if p.returncode not in (0, 10):
        raise vp.HarnessError(f"{key}: status {p.returncode}: {p.stderr[-800:]}")
    d = json.load(open(st))
    ctx.merge(key, d)
    if p.returncode == 10:
        f = d["fail"]
        ctx.violation(dict(rep, kind="interop", pbt=f), f"{key}: {f['message']} | history: {f['trace'][:600]} {f['stderr'][-300:]}")


def build_pair(ctx, rep):
    """For replay: returns (cmd, env)."""
    if rep["mode"] == "interop":
        env = {}
        for v, c in (("UNIT_A", rep["a"]), ("UNIT_B", rep["b"])):
            so, ok, log = unit(ctx, c)
            if not ok:
                return None, log
            env[v] = so
        return [driver(ctx, bits(rep["a"]))], env
    exe, log = coexist(ctx, rep["a"], rep["b"])
    return ([exe] if exe else None), ({} if exe else log)


def coexist(ctx, a, b):
    objs = []
    for u, cfg in (("A", a), ("B", b)):
        o = os.path.join(ctx.dir, f"co-{a}-{b}-{u}.o")
        nb = (True, False) in (setting(a), setting(b))
        ok, log = ctx.compile(cfg, os.path.join(vp.VERIF, "t", "interop_unit.cpp"), o, [f"UNIT={u}"] + (["NOBITMEM"] if nb else []), link=False)
        if not ok:
            return None, log
        objs.append(o)
    return driver(ctx, bits(a), ["COEXIST"], objs, f"co-{a}-{b}"), ""


def replay(ctx, r):
    import subprocess
    cmd, env = build_pair(ctx, r)
    if cmd is None:
        print(env[:3000], "FAILS: does not compile")
        return 1
    p = subprocess.run(cmd + ["--replay", r["pbt"]["prop"], ",".join(map(str, r["pbt"]["choices"]))], capture_output=True, text=True, env=dict(vp.RUNENV, **env))
    print(p.stdout[-2000:], p.stderr[-2000:], "FAILS" if p.returncode else "OK")
    return 1 if p.returncode else 0


def check(ctx):
    import random
    ctx.rule = ("link: one case = an optional type (generated payload, sentinel, member, alias template) and a way to exchange it through a function or template (18 forms), used in a unit of one "
                "configuration and defined in a unit of another one; it must be unresolved exactly if the effective settings differ. interop: one case = an optional kind (26) and a history of up "
                "to 20 operations on three objects in shared memory, each operation done by the code of a randomly chosen one of two units (shared libraries with private code, equal settings, different "
                "compiler/standard/optimisation/NDEBUG), compared after each step, as seen by both units, with a std::optional model; non-trivial: both units worked and objects were filled and emptied. "
                "coexist: the same in one program with units of different settings, each on its own objects.")
    S = {(False, False): ["g17", "g20n", "c20", "c17", "g23n", "c23n"], (True, True): ["g17noub", "c20noub", "g20nobitmem"], (True, False): ["g20nobit", "c17nobit"], (False, True): ["g17nomem", "c20nomem"]}
    B32 = ["g32", "c32", "g32n"]
    nlink, cases = 60, 1500
    if ctx.thorough:
        S[(False, False)] += ["g23", "g17n", "c20n", "c23", "g17o"]
        nlink, cases = 150, 30000
    keys = list(S)
    work = []
    # link: every ordered pair of settings, and pairs with equal settings
    pairs = []
    reps = 8 if ctx.thorough else 1
    for _ in range(reps):
        for x, y in itertools.product(keys, keys):
            a, b = ctx.rng.choice(S[x]), ctx.rng.choice(S[y])
            pairs.append((a, b))
    # units with equal settings: every configuration uses, and is used by, another one
    few = len(pairs)
    for group in S.values():
        g = list(group)
        ctx.rng.shuffle(g)
        pairs += list(zip(g, g[1:] + g[:1]))
    ctx.rngs = {i: random.Random(f"{ctx.seed}/link/{i}") for i in range(len(pairs))}
    for i, (a, b) in enumerate(pairs):
        work.append(lambda i=i, a=a, b=b: linkcase(ctx, i, a, b, nlink if i < few else nlink // 3))
    # units
    units = {}

    def mk(c):
        units[c] = unit(ctx, c)
    allc = [c for v in S.values() for c in v] + B32
    dr = {}

    def mkd(b):
        dr[b] = driver(ctx, b)
    first = [lambda b=b: mkd(b) for b in (64, 32)] + [lambda c=c: mk(c) for c in allc]
    ctx.parallel(lambda f: f(), first)
    for c, (so, ok, log) in units.items():
        if not ok:
            if not ctx.control_ok(c):
                raise vp.HarnessError(f"configuration {c} cannot compile anything")
            ctx.violation({"kind": "build", "job": {"src": "interop_unit.cpp", "cfg": c, "defs": ["UNIT=A"], "extra": ["-fPIC", "-shared"]}, "log": log[:8000]},
                          f"interop/{c}: valid use does not compile: " + " | ".join([l for l in log.splitlines() if "error:" in l][:3]))
            return
    for group in list(S.values()) + [B32]:
        for a, b in itertools.combinations(group, 2):
            work.append(lambda a=a, b=b: runpbt(ctx, f"interop/{a}/{b}", [dr[bits(a)]], {"UNIT_A": units[a][0], "UNIT_B": units[b][0]}, cases, {"mode": "interop", "a": a, "b": b}))
    co = [("g17", "g17noub"), ("g20nobit", "g17nomem"), ("g20nobitmem", "g17"), ("g17nomem", "g17noub")]
    if ctx.thorough:
        co = [(a, b) for x, y in itertools.permutations(keys, 2) for a in S[x][:2] for b in S[y][:2]]

    def cx(a, b):
        exe, log = coexist(ctx, a, b)
        if exe is None:
            raise vp.HarnessError(log[:2000])
        runpbt(ctx, f"coexist/{a}/{b}", [exe], {}, cases, {"mode": "coexist", "a": a, "b": b})
        os.remove(exe)
    for a, b in co:
        work.append(lambda a=a, b=b: cx(a, b))
    ctx.parallel(lambda f: None if ctx.stop.is_set() else f(), work)
