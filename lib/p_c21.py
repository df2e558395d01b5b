"""Generated multi-file projects: the two headers in every order and multiplicity, payloads and their flag manipulators declared in every
documented arrangement, several translation units that exchange the optionals. Oracle: a model of the history, computed here, and the
documented size."""
import itertools, os, random
import vp

LEVEL = "exploration"
FWD = "#include <tiny/optional_flag_manipulator_fwd.h>"
OPT = "#include <tiny/optional.h>"
STD = ["<optional>", "<vector>", "<string>", "<memory>", "<type_traits>", "<functional>", "<variant>", "<map>", "<limits>", "<cstring>", "<utility>", "<compare>", "<new>"]

# What each unit set may be built with; all units of a project have the same settings.
SETTINGS = {
    "": ["g17", "g20n", "g23", "c17", "c20n", "c23", "g17n"],
    "noub": ["g17noub", "g20noub", "c20noub"],
    "nobit": ["g20nobit", "c17nobit"],
    "nomem": ["g17nomem", "c20nomem"],
    "32": ["g32", "g32n", "c32"],
}


def manip(T, empty, init, inval, outOfLine, spec="template <> "):
    """A specialisation for T; returns (header part, implementation part)."""
    sig = [("bool", f"is_empty({T} const & p)", f"return {empty};"), ("void", f"init_empty_flag({T} & p)", init), ("void", f"invalidate_empty_flag({T} & p)", inval)]
    if outOfLine:
        h = f"{spec}struct tiny::optional_flag_manipulator<{T}>\n{{\n" + "".join(f"  static {r} {s} noexcept;\n" for r, s, _ in sig) + "};\n"
        c = "".join(f"{r} tiny::optional_flag_manipulator<{T}>::{s} noexcept {{ {b} }}\n" for r, s, b in sig)
        return h, c
    return f"{spec}struct tiny::optional_flag_manipulator<{T}>\n{{\n" + "".join(f"  static {r} {s} noexcept {{ {b} }}\n" for r, s, b in sig) + "};\n", ""


class Type:
    """name: the payload; opt: the optional; mk/rd: expressions that make the payload from int k / read it back; size: 'payload' or 'std'."""

    def __init__(self, i, r):
        self.i = i
        self.kind = r.choice(["struct", "private", "nested", "enum", "enumforward", "enableif", "template", "member", "derived", "inplace", "viatype", "plain", "pointer", "double", "owner", "recursive"])
        ns = f"u{i}"
        self.fwdDecl = None  # how the payload can be declared without its definition
        self.needsOpt = False  # the type's header needs the full header
        self.impl = ""
        self.size = "payload"
        out = r.random() < 0.3
        k = self.kind
        self.label = k + (" out of line" if out and k in ("struct", "nested", "private", "derived") else "")
        P = f"{ns}::P"
        new = "::new (static_cast<void *>(&p)) {T}({a});"
        if k == "struct":
            h, self.impl = manip(P, "p.v == -1", new.format(T=P, a="") + " p.v = -1;", f"p.~P();", out)
            self.hdr = f"namespace {ns}\n{{\nstruct P\n{{\n  int v = 0;\n  P() noexcept {{}}\n  explicit P(int x) : v(x) {{}}\n}};\n}}\n" + h
            self.fwdDecl = f"namespace {ns} {{ struct P; }}"
            self.opt, self.mk, self.rd = f"tiny::optional<{P}>", f"{P}({{k}})", "{o}->v"
        elif k == "private":
            h, self.impl = manip(P, "p.v == -1", new.format(T=P, a="") + " p.v = -1;", "p.~P();", out)
            self.hdr = (f"namespace {ns}\n{{\nclass P\n{{\n  int v = 0;\n  char pad = 'x';\n  P() noexcept {{}}\n  friend struct tiny::optional_flag_manipulator<P>;\npublic:\n"
                        f"  explicit P(int x) : v(x) {{}}\n  int get() const {{ return v; }}\n}};\n}}\n" + h)
            self.fwdDecl = f"namespace {ns} {{ class P; }}"
            self.opt, self.mk, self.rd = f"tiny::optional<{P}>", f"{P}({{k}})", "{o}->get()"
        elif k == "nested":
            T = f"{ns}::Outer::P"
            h, self.impl = manip(T, "p.v == -2", new.format(T=T, a="-2"), "p.v = 0;", out)
            self.hdr = f"namespace {ns}\n{{\nstruct Outer\n{{\n  struct P\n  {{\n    short v;\n    P(int x) noexcept : v(static_cast<short>(x)) {{}}\n  }};\n}};\n}}\n" + h
            self.opt, self.mk, self.rd = f"tiny::optional<{T}>", f"{T}({{k}})", "{o}->v"
        elif k == "enum":
            T = f"{ns}::Outer::E"
            self.needsOpt = True
            self.hdr = (f"namespace {ns}\n{{\nstruct Outer\n{{\n  enum class E : int {{ a, b, last = 100000 }};\n}};\n}}\n"
                        f"template <>\nstruct tiny::optional_flag_manipulator<{T}> : tiny::sentinel_flag_manipulator<{T}, {T}::last>\n{{\n}};\n")
            self.opt, self.mk, self.rd = f"tiny::optional<{T}>", f"static_cast<{T}>({{k}})", "static_cast<int>(*{o})"
        elif k == "enumforward":  # no specialisation: a forward declared enumeration is complete, the flag is separate everywhere
            T = f"{ns}::E"
            self.hdr = f"namespace {ns}\n{{\nenum class E : int {{ a, b }};\n}}\n"
            self.fwdDecl = f"namespace {ns} {{ enum class E : int; }}"
            self.size = "std"
            self.opt, self.mk, self.rd = f"tiny::optional<{T}>", f"static_cast<{T}>({{k}})", "static_cast<int>(*{o})"
        elif k == "enableif":
            self.hdr = ("#include <type_traits>\n"
                        f"namespace {ns}\n{{\nstruct Base\n{{\n  int v;\n}};\nstruct P : Base\n{{\n  P(int x) noexcept : Base{{x}} {{}}\n}};\n}}\n"
                        f"template <class T>\nstruct tiny::optional_flag_manipulator<T, std::enable_if_t<std::is_base_of<{ns}::Base, T>::value>>\n{{\n"
                        f"  static bool is_empty(T const & p) noexcept {{ return p.v == -1; }}\n  static void init_empty_flag(T & p) noexcept {{ ::new (static_cast<void *>(&p)) T(-1); }}\n"
                        f"  static void invalidate_empty_flag(T & p) noexcept {{ p.~T(); }}\n}};\n")
            self.fwdDecl = f"namespace {ns} {{ struct P; }}"
            self.opt, self.mk, self.rd = f"tiny::optional<{P}>", f"{P}({{k}})", "{o}->v"
        elif k == "template":
            T = f"{ns}::Box<int>"
            h, _ = manip(f"{ns}::Box<T>", "p.set == 2", f"::new (static_cast<void *>(&p)) {ns}::Box<T>(T()); p.set = 2;", "p.set = 0;", False, "template <class T>\n")
            self.hdr = f"namespace {ns}\n{{\ntemplate <class T>\nstruct Box\n{{\n  T v;\n  unsigned char set = 1;\n  explicit Box(T x) noexcept : v(x) {{}}\n}};\n}}\n" + h
            self.fwdDecl = f"namespace {ns} {{ template <class T> struct Box; }}"
            self.opt, self.mk, self.rd = f"tiny::optional<{T}>", f"{T}({{k}})", "{o}->v"
        elif k == "member":
            F = f"{ns}::F"
            h, self.impl = manip(F, "p.v == -5", f"::new (static_cast<void *>(&p)) {F}(-5);", "p.~F();", out)
            self.hdr = (f"namespace {ns}\n{{\nstruct F\n{{\n  int v;\n  F(int x) noexcept : v(x) {{}}\n}};\nstruct P\n{{\n  char c = 'c';\n  F f;\n  double d = 1;\n  explicit P(int x) : f(x) {{}}\n}};\n}}\n" + h)
            self.opt, self.mk, self.rd = f"tiny::optional<{P}, &{P}::f>", f"{P}({{k}})", "{o}->f.v"
        elif k == "derived":
            h, self.impl = manip(P, "p.empty()", new.format(T=P, a="") + " p.state = 9;", "p.~P();", out)
            self.hdr = (f"namespace {ns}\n{{\nstruct A\n{{\n  virtual ~A() {{}}\n  int v = 0;\n}};\nstruct P final : A\n{{\n  char state = 0;\n  bool empty() const noexcept {{ return state == 9; }}\n"
                        f"  P() noexcept {{}}\n  explicit P(int x) {{ v = x; }}\n}};\n}}\n" + h)
            self.fwdDecl = f"namespace {ns} {{ struct P; }}"
            self.opt, self.mk, self.rd = f"tiny::optional<{P}>", f"{P}({{k}})", "{o}->v"
        elif k == "inplace":
            self.hdr = (f"#include <new>\nnamespace {ns}\n{{\nclass P\n{{\n  int v = 0;\n  bool ok = false;\npublic:\n  P() noexcept {{}}\n  explicit P(int x) noexcept : v(x), ok(true) {{}}\n"
                        f"  bool valid() const noexcept {{ return ok; }}\n  int get() const noexcept {{ return v; }}\n}};\nstruct M\n{{\n  static bool is_empty(P const & p) noexcept {{ return !p.valid(); }}\n"
                        f"  static void init_empty_flag(P & p) noexcept {{ ::new (static_cast<void *>(&p)) P(); }}\n  static void invalidate_empty_flag(P & p) noexcept {{ p.~P(); }}\n}};\n}}\n")
            self.opt, self.mk, self.rd = f"tiny::optional_inplace<{P}, {ns}::M>", f"{P}({{k}})", "{o}->get()"
        elif k == "viatype":
            self.hdr = (f"namespace {ns}\n{{\nstruct P\n{{\n  int v;\n  constexpr explicit P(int x) noexcept : v(x) {{}}\n  friend constexpr bool operator==(P const & a, P const & b) noexcept {{ return a.v == b.v; }}\n}};\n"
                        f"struct S\n{{\n  static constexpr P value{{-3}};\n}};\n}}\n")
            self.opt, self.mk, self.rd = f"tiny::optional_sentinel_via_type<{P}, {ns}::S>", f"{P}({{k}})", "{o}->v"
        elif k == "plain":
            self.hdr = f"namespace {ns}\n{{\nstruct P\n{{\n  int v;\n  explicit P(int x) : v(x) {{}}\n}};\n}}\n"
            self.fwdDecl = f"namespace {ns} {{ struct P; }}"
            self.size = "std"
            self.opt, self.mk, self.rd = f"tiny::optional<{P}>", f"{P}({{k}})", "{o}->v"
        elif k == "pointer":  # pointer to a type that stays incomplete in some units
            self.hdr = f"namespace {ns}\n{{\nstruct P\n{{\n  int v;\n}};\ninline P * at(int k) {{ static P all[64]; all[k].v = k; return all + k; }}\n}}\n"
            self.fwdDecl = f"namespace {ns} {{ struct P; }}"
            self.size = "bit"
            self.opt, self.mk, self.rd = f"tiny::optional<{ns}::P *>", f"{ns}::at({{k}})", "(*{o})->v"
        elif k == "double":
            self.hdr = f"namespace {ns}\n{{\nstruct P\n{{\n  double d;\n  int v;\n  explicit P(int x) : d(x), v(-x) {{}}\n}};\n}}\n"
            self.size = "bitmem"
            self.opt, self.mk, self.rd = f"tiny::optional<{P}, &{P}::d>", f"{P}({{k}})", "-{o}->v"
        elif k == "owner":  # a flag that owns something
            self.hdr = (f"#include <memory>\nnamespace {ns}\n{{\nstruct P\n{{\n  std::shared_ptr<int> s;\n  bool e = false;\n  P() noexcept {{}}\n  explicit P(int x) : s(std::make_shared<int>(x)) {{}}\n}};\n}}\n"
                        + manip(P, "p.e", new.format(T=P, a="") + " p.e = true;", "p.~P();", False)[0])
            self.fwdDecl = f"namespace {ns} {{ struct P; }}"
            self.opt, self.mk, self.rd = f"tiny::optional<{P}>", f"{P}({{k}})", "*{o}->s"
        else:  # recursive: the payload mentions optionals of itself
            self.needsOpt = True
            h, self.impl = manip(P, "p.v == -1", new.format(T=P, a="-1"), "p.~P();", False)
            self.hdr = (f"#include <vector>\nnamespace {ns}\n{{\nstruct P\n{{\n  int v;\n  tiny::optional<P *> next;\n  std::vector<P> children;\n  explicit P(int x) noexcept : v(x) {{}}\n"
                        f"  static tiny::optional<P> make(int);\n  bool same(tiny::optional<P> const &) const;\n}};\n}}\n" + h
                        + f"namespace {ns}\n{{\ninline tiny::optional<P> P::make(int k) {{ return tiny::optional<P>(P(k)); }}\ninline bool P::same(tiny::optional<P> const & o) const {{ return o.has_value() && o->v == v; }}\n}}\n")
            self.fwdDecl = f"namespace {ns} {{ struct P; }}"
            self.opt, self.mk, self.rd = f"tiny::optional<{P}>", f"*{P}::make({{k}})", "{o}->v"

    def compressed(self, setting):
        nobit, nomem = setting in ("noub", "nobit"), setting in ("noub", "nomem")
        if self.size == "payload":
            return not (self.kind == "member" and nomem)
        if self.size == "bit":
            return not nobit
        if self.size == "bitmem":
            return not nobit and not nomem
        return False


def arrange(r, pool, must):
    """A random sequence of includes: all of `must`, some of `pool` before, between and after, with repetitions."""
    seq = list(must)
    r.shuffle(seq)
    for x in pool:
        if r.random() < 0.3:
            seq.insert(r.randint(0, len(seq)), x)
    for x in list(seq):
        if r.random() < 0.12:
            seq.insert(r.randint(0, len(seq)), x)
    return seq


class Project:
    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.setting = r.choice(["", "", "", "noub", "nobit", "nomem", "32"])
        cfgs = SETTINGS[self.setting]
        nobitmem = self.setting == "nobit"
        self.types = []
        for i in range(r.randint(1, 4)):
            t = Type(i, r)
            while nobitmem and t.kind == "double":  # a member trick that is switched off without the members being switched off
                t = Type(i, r)
            self.types.append(t)
        self.units = r.randint(2, 3)
        self.cfg = [r.choice(cfgs) for _ in range(self.units + 1)]
        self.files = {}
        self.steps = []
        self.build()

    def build(self):
        r = self.r
        F, U = self.files, self.units
        self.desc = []
        for t in self.types:
            inc = {"fwd": [FWD], "opt": [OPT], "fwd+opt": [FWD, OPT], "opt+fwd": [OPT, FWD]}
            special = "optional_flag_manipulator" in t.hdr
            how = r.choice(["opt", "fwd+opt", "opt+fwd"] if t.needsOpt else ["fwd", "fwd", "opt", "fwd+opt", "opt+fwd"] if special else ["", "fwd", "opt"])
            guard = ["#pragma once"] if r.random() < 0.5 else [f"#ifndef T{t.i}_H", f"#define T{t.i}_H"]
            std = [f"#include {s}" for s in r.sample(STD, r.randint(0, 2)) if s != "<compare>"]
            incs = arrange(r, std, inc.get(how, []))
            F[f"t{t.i}.h"] = "\n".join(guard + ["#include <new>"] + incs + [t.hdr] + ([] if guard[0].startswith("#pragma") else ["#endif"])) + "\n"
            self.desc.append(f"{t.label} [{how or 'no header'}]")
            # The interface: either with the definition or with forward declarations only.
            api = [f"#ifndef A{t.i}_H", f"#define A{t.i}_H"]
            if t.fwdDecl and r.random() < 0.5:
                api += [t.fwdDecl, OPT] if r.random() < 0.5 else [OPT, t.fwdDecl]
                self.desc[-1] += " forward declared in the interface"
            else:
                api += arrange(r, [FWD], [OPT, f'#include "t{t.i}.h"'])
            for u in range(U):
                O = t.opt
                api += [f"{O} make_{t.i}_{u}(int);", f"void set_{t.i}_{u}({O} &, int);", f"void clear_{t.i}_{u}({O} &);", f"int read_{t.i}_{u}({O} const &);", f"int take_{t.i}_{u}({O});",
                        f"unsigned size_{t.i}_{u}();", f"bool comp_{t.i}_{u}();", f"void cop_{t.i}_{u}({O} &, {O} const &);"]
            F[f"a{t.i}.h"] = "\n".join(api + ["#endif"]) + "\n"
        for u in range(U):
            must = [OPT] if r.random() < 0.5 else []
            pool = [FWD] + [f"#include {s}" for s in r.sample(STD[:-2], 3)] + [f'#include "t{t.i}.h"' for t in self.types]
            incs = arrange(r, pool, must + [f'#include "a{t.i}.h"' for t in self.types])
            # the definitions have to be there before the optionals are used
            if r.random() < 0.5:
                incs = arrange(r, [], [f'#include "t{t.i}.h"' for t in self.types]) + incs
            else:
                incs = incs + arrange(r, [], [f'#include "t{t.i}.h"' for t in self.types])
            body = []
            for t in self.types:
                O, i = t.opt, t.i
                mk = t.mk.format(k="k")
                route = r.randint(0, 4)
                make = [f"return {mk};", f"{O} o; o = {mk}; return o;", f"{O} o(std::in_place, ({mk})); return o;", f"{O} o; o.emplace({mk}); return o;", f"{O} o(({mk})); {O} c(std::move(o)); return c;"][route]
                setter = [f"o = {mk};", f"o.emplace({mk});", f"{O} n(({mk})); o.swap(n);", f"o.reset(); o = {mk};", f"o = {O}({mk});"][r.randint(0, 4)]
                clear = ["o.reset();", "o = std::nullopt;", f"o = {O}();", f"{O} n; o.swap(n);", "o = {};"][r.randint(0, 4)]
                get = t.rd.format(o="o")
                body += [f"{O} make_{i}_{u}(int k) {{ if (k < 0) {{ return {r.choice(['std::nullopt', O + '()'])}; }} {make} }}",
                         f"void set_{i}_{u}({O} & o, int k) {{ {setter} }}",
                         f"void clear_{i}_{u}({O} & o) {{ {clear} }}",
                         f"int read_{i}_{u}({O} const & o) {{ return o.has_value() ? {get} : -1; }}",
                         f"int take_{i}_{u}({O} o) {{ return o ? {get} : -1; }}",
                         f"unsigned size_{i}_{u}() {{ return sizeof({O}); }}",
                         f"bool comp_{i}_{u}() {{ return {O}::is_compressed; }}",
                         f"void cop_{i}_{u}({O} & d, {O} const & s) {{ d = s; }}"]
                if t.impl and u == i % U:
                    body.append(t.impl)
            F[f"u{u}.cpp"] = "\n".join(["#include <utility>"] * (r.random() < 0.3) + incs + body) + "\n"
        # main: the history
        L = []
        state = {}
        for t in self.types:
            for s in range(2):
                state[t.i, s] = None
        # (the optionals themselves)
        decl = [f"  {t.opt} o{t.i}_{s};" for t in self.types for s in range(2)]
        for t in self.types:
            for u in range(U):
                L.append(f"  chk(size_{t.i}_{u}() == sizeof({t.opt}), \"{t.label}: unit {u} sees another size\");")
                want = "sizeof(typename V::value_type)" if t.compressed(self.setting) else "sizeof(std::optional<typename V::value_type>)"
                L.append(f"  {{ using V = {t.opt}; chk(size_{t.i}_{u}() == {want.replace('typename ', '')}, \"{t.label}: unit {u}: not the documented size\"); chk(comp_{t.i}_{u}() == {'true' if t.compressed(self.setting) else 'false'}, \"{t.label}: unit {u}: is_compressed\"); }}")
        for n in range(r.randint(8, 30)):
            t = r.choice(self.types)
            s, u, v = r.randint(0, 1), r.randint(0, U - 1), r.randint(0, U - 1)
            o = f"o{t.i}_{s}"
            k = r.randint(0, 63)
            op = r.randint(0, 4)
            if op == 0:
                L.append(f"  set_{t.i}_{u}({o}, {k});")
                state[t.i, s] = k
            elif op == 1:
                L.append(f"  clear_{t.i}_{u}({o});")
                state[t.i, s] = None
            elif op == 2:
                k = k if r.random() < 0.7 else -1
                L.append(f"  {o} = make_{t.i}_{u}({k});")
                state[t.i, s] = k if k >= 0 else None
            elif op == 3:
                L.append(f"  cop_{t.i}_{u}({o}, o{t.i}_{1 - s});")
                state[t.i, s] = state[t.i, 1 - s]
            else:
                L.append(f"  {o}.swap(o{t.i}_{1 - s});")
                state[t.i, 0], state[t.i, 1] = state[t.i, 1], state[t.i, 0]
            for q in range(2):
                w = state[t.i, q]
                w = -1 if w is None else w
                L.append(f"  chk({r.choice(['read', 'take'])}_{t.i}_{v}(o{t.i}_{q}) == {w}, \"{t.label}: step {n}: unit {v} reads another value than {w}\"); chk(o{t.i}_{q}.has_value() == {'true' if w >= 0 else 'false'}, \"{t.label}: step {n}: has_value()\");")
        incs = arrange(r, [FWD, OPT], [f'#include "t{t.i}.h"' for t in self.types] + [f'#include "a{t.i}.h"' for t in self.types])
        F["main.cpp"] = "\n".join(incs) + "\n#include <cstdio>\n#include <optional>\nstatic int bad = 0;\nstatic void chk(bool ok, char const * what) { if (!ok && !bad) { bad = 1; std::puts(what); } }\nint main()\n{\n" + "\n".join(decl + L) + "\n  return bad;\n}\n"
        self.sources = [f"u{u}.cpp" for u in range(U)] + ["main.cpp"]

    def summary(self):
        return f"settings '{self.setting or 'default'}', units {self.cfg}: " + "; ".join(self.desc)


def run(ctx, files, sources, cfgs, tag):
    """None if the project builds and runs, otherwise what fails."""
    d = os.path.join(ctx.dir, tag)
    os.makedirs(d, exist_ok=True)
    for n, text in files.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(text)
    objs = []
    for s, c in zip(sources, cfgs):
        o = os.path.join(d, s[:-4] + ".o")
        ok, log = ctx.compile(c, os.path.join(d, s), o, extra=["-I", d], link=False)
        if not ok:
            return f"{s} ({c}) does not compile: " + " | ".join([l for l in log.splitlines() if "error:" in l][:2])
        objs.append(o)
    exe = os.path.join(d, "x")
    rc, out, err = ctx.run_cmd(["g++", *(["-m32"] if "-m32" in vp.CFG[cfgs[0]] else []), *objs, "-o", exe])
    if rc:
        if "undefined reference" in err or "multiple definition" in err:
            return "does not link: " + " | ".join([l for l in err.splitlines() if "undefined reference" in l or "multiple definition" in l][:2])
        raise vp.HarnessError(f"linker: {err[-1500:]}")
    rc, out, err = ctx.run_cmd([exe], timeout=60)
    for o in objs + [exe]:
        os.remove(o)
    if rc:
        return (out.strip() or f"status {rc}") + " " + err[-300:]
    return None


def shrink(ctx, p, what):
    """Drops include lines and statements of main while the project still fails."""
    files = dict(p.files)
    cls = what.split(":")[0].split(" (")[0][:40]
    budget = 40
    for name in ["main.cpp"] + [f for f in files if f != "main.cpp"]:
        lines = files[name].split("\n")
        removable = [i for i, l in enumerate(lines) if (l.startswith("#include <tiny") or (name == "main.cpp" and l.startswith("  ") and not l.startswith("  return") and "tiny::" not in l))]
        chunk = max(1, len(removable) // 2)
        while budget > 0 and removable:
            done = True
            for at in range(0, len(removable), chunk):
                drop = set(removable[at:at + chunk])
                cand = dict(files, **{name: "\n".join(l for i, l in enumerate(lines) if i not in drop)})
                budget -= 1
                w = run(ctx, cand, p.sources, p.cfg, f"shrink{id(p)}")
                if w and w[:12] == what[:12]:
                    files = cand
                    lines = files[name].split("\n")
                    removable = [i for i, l in enumerate(lines) if (l.startswith("#include <tiny") or (name == "main.cpp" and l.startswith("  ") and not l.startswith("  return") and "tiny::" not in l))]
                    done = False
                    break
                if budget <= 0:
                    break
            if done:
                if chunk == 1:
                    break
                chunk = max(1, chunk // 2)
    return files


def check(ctx):
    ctx.rule = ("one case = a generated project of 3-4 translation units: 1-4 payload types with their flag manipulator in one of 16 arrangements (out-of-line functions, class scope, friends, partial "
                "specialisations, enumerations, incomplete types in interfaces ...), both headers of the library included in a random order and multiplicity in every file, each unit with its own compiler "
                "and standard, and a history of 8-30 operations executed by randomly chosen units on shared optionals. Oracle: it builds, every unit sees the documented size, and every read gives the "
                "model's value. Non-trivial: at least one type has a flag manipulator or is incomplete in some unit.")
    n = 2500 if ctx.thorough else 130

    def one(k):
        if ctx.stop.is_set():
            return
        p = Project(f"C21/{ctx.seed}/{k}")
        what = run(ctx, p.files, p.sources, p.cfg, f"p{k}")
        nontrivial = any("optional_flag_manipulator" in t.hdr or t.fwdDecl for t in p.types)
        ctx.count(tuple(sorted(p.files.items())), nontrivial, sample=p.summary() if k % 10 == 0 else None, label=f"settings {p.setting or 'default'}")
        with ctx.lock:
            for t in p.types:
                ctx.labels["type: " + t.label] = ctx.labels.get("type: " + t.label, 0) + 1
        if what:
            if not all(ctx.control_ok(c) for c in set(p.cfg)):
                raise vp.HarnessError("a compiler does not work")
            files = shrink(ctx, p, what)
            ctx.violation({"kind": "project", "files": files, "sources": p.sources, "cfgs": p.cfg}, f"{what} | {p.summary()}")
        import shutil
        shutil.rmtree(os.path.join(ctx.dir, f"p{k}"), ignore_errors=True)

    ctx.parallel(one, range(n))


def replay(ctx, r):
    what = run(ctx, r["files"], r["sources"], r["cfgs"], "p")
    print(what or "", "FAILS" if what else "OK")
    return 1 if what else 0
