"""The Natvis conditions, translated to C++ expressions over the bytes of the object, against has_value() on generated objects."""
import os, re
import xml.etree.ElementTree as ET
import structs, vp
from p_c13 import INTS, lit

LEVEL = "exploration"
NS = "{http://schemas.microsoft.com/vstudio/debugger/natvis/2010}"


class BadNatvis(Exception):
    pass


def split_args(s):
    """Template arguments of the outermost template in s."""
    i = s.index("<")
    depth, cur, out = 0, "", []
    for ch in s[i + 1:s.rindex(">")]:
        if ch == "<":
            depth += 1
        if ch == ">":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


class Vis:
    """One <Type>."""
    def __init__(self, e):
        self.name = e.attrib["Name"]
        self.low = e.attrib.get("Priority", "") == "Low"
        self.view = e.attrib.get("IncludeView")
        self.ns = re.findall(r"tiny::(tiny\w+)::", self.name)
        args = split_args(self.name)
        if len(args) != 2:
            raise BadNatvis(f"unexpected type pattern {self.name}")
        self.deco, self.man = args
        self.member = self.deco.count("*") == 2
        self.separate = "optional_flag_manipulator" not in self.man and self.man != "*"
        self.generic = self.deco == "*"
        m = re.match(r"^tiny::optional_flag_manipulator<\s*(.*?)\s*,\s*void\s*>$", self.man)
        self.flag = m.group(1) if m else None  # bool, float, double, *
        self.sentinel = self.man == "*"
        self.isEmpty = None
        for x in e.iter(NS + "Intrinsic"):
            if x.attrib["Name"] == "IsEmpty":
                self.isEmpty = " ".join(x.attrib["Expression"].split())
        self.displays = [(x.attrib.get("Condition"), x.text or "") for x in e.findall(NS + "DisplayString")]
        ex = e.find(NS + "Expand")
        self.items = [(x.attrib.get("Condition"), x.text or "", x.tag) for x in (ex if ex is not None else [])]


def parse(path):
    try:
        root = ET.parse(path).getroot()
    except ET.ParseError as e:
        raise BadNatvis(f"not well-formed: {e}")
    return [Vis(t) for t in root.findall(NS + "Type")]


def choose(vis, member, flag):
    """The visualizer that applies to an optional with the flag of this type ('*': a pointer, 'sentinel', 'separate')."""
    c = [v for v in vis if not v.view and not v.low and not v.generic]
    if flag == "separate":
        c = [v for v in c if v.separate]
    elif flag == "sentinel":
        c = [v for v in c if v.sentinel and v.member == member and not v.separate]
    else:
        exact = [v for v in c if v.member == member and v.flag == flag]
        c = exact or [v for v in c if v.member == member and v.flag == "*"] or [v for v in c if v.member == member and v.sentinel]
    return c[0] if c else None


def code(v, vis, expr, sentinel):
    """C++ for a Natvis expression."""
    e = expr
    stars = [m.group() for m in re.finditer(r"\*", v.name)]
    def sub(m):
        n = int(m.group(1))
        if n > len(stars):
            return "NO_SUCH_WILDCARD"
        if v.member:
            return ["PAYLOAD", "static_cast<std::size_t>(OFF)", "MAN"][n - 1]
        return ["PAYLOAD", "MAN"][n - 1]
    e = re.sub(r"\$T(\d)", sub, e)
    e = e.replace("MAN::valueToIndicateEmpty", f"({sentinel})")
    if not v.separate:
        e = e.replace("mStorage.storage", "(*ST)")
    return e


VIEW = re.compile(r"view\((\w+)\)")


def shows(v, vis, texts):
    """Follows view(...) references. Returns a list of (condition, text)."""
    for cond, text in texts:
        m = VIEW.search(text)
        if m:
            return [w for w in vis if w.view == m.group(1)]
    return []


def trait(name, v, vis, opt, T, flagT, s, flag, sentinel, bits):
    """C++ traits of one optional type under one visualizer."""
    off = f"reinterpret_cast<unsigned char const *>(&t.{flag[0]}) - reinterpret_cast<unsigned char const *>(&t)" if flag else "0"
    o = [f"struct {name}", "{", f'  static constexpr char const * name = "{opt}";', f"  using T = {T};", f"  using Opt = {opt};", f"  using Flag = {flagT};",
         f"  static constexpr bool kBits = {'true' if bits else 'false'};",
         f"  static std::size_t offset() {{ static T t{{}}; return static_cast<std::size_t>({off}); }}",
         "  static void fill(T & t, pbt::Src & s)", "  {"]
    if flag:
        o += [f"    lay::fill(t.{m}, s);" for m, _, _ in s.members]
        tgt = f"t.{flag[0]}"
    else:
        o += ["    lay::fill(t, s);"]
        tgt = "t"
    if sentinel is not None:
        o.append(f"    if ({tgt} == static_cast<{flagT}>({sentinel})) {{ {tgt} = static_cast<{flagT}>({sentinel} ^ 1); }}")
    o += ["  }"]
    pre = "using FlagType = Flag; using PAYLOAD = T; T * ST = reinterpret_cast<T *>(const_cast<Opt *>(&o_)); std::size_t OFF = offset(); (void)ST; (void)OFF; "
    if v.separate:
        pre = "auto & mStorage = o_.mStorage; "
    o.append(f"  __attribute__((noinline)) static bool isEmpty(Opt const & o_) {{ {pre} return {code(v, vis, v.isEmpty, sentinel) if v.isEmpty else code(v, vis, v.displays[0][0], sentinel)}; }}")
    # what is displayed
    disp, items = v.displays, v.items
    d2 = shows(v, vis, [(c, t) for c, t in disp])
    if d2:
        disp = d2[0].displays
    i2 = shows(v, vis, [(c, t) for c, t, _ in items])
    if i2:
        items = i2[0].items
    val = "mStorage.payload" if v.separate else "mStorage.storage"

    def cond(c):
        if c is None:
            return "true"
        c = re.sub(r"\bIsEmpty\(\)", "isEmpty(o_)", c)
        return code(v, vis, c, sentinel)

    o.append(f"  static int display(Opt const & o_) {{ {pre}")
    for c, t in disp:
        kind = 1 if "nullopt" in t and val not in t else 2 if val in t else 0
        o.append(f"    if ({cond(c)}) {{ return {kind}; }}")
    o.append("    return 0; }")
    o.append(f"  static int expand(Opt const & o_) {{ {pre} int r = 0;")
    for c, t, tag in items:
        kind = 1 if "nullopt" in t else 2 if val in t else 0
        if kind:
            o.append(f"    if ({cond(c)}) {{ r = r * 10 + {kind}; }}")
    o.append("    return r; }")
    o += ["};", f'static pbt::Reg reg_{name}("natvis/{name}", &nat::prop<{name}>);']
    return "\n".join(o)


def make(r, vis, n, separate):
    out = ['#include "nat.h"', structs.PRE, "struct Some { int x; }; using Fn2 = void (*)() noexcept; using PP = int **; using Fn3 = double (*)(Some const &, int);"]
    k = 0

    def need(v, what):
        if v is None:
            raise BadNatvis(f"no visualizer for {what}")
        if not v.separate and not v.isEmpty:
            raise BadNatvis(f"the visualizer for {what} has no IsEmpty condition")
        return v
    for t in ("bool", "float", "double", "int *", "char const *", "Some *", "PP", "FnPtr", "Fn2", "Fn3"):
        v = need(choose(vis, False, t if t in ("bool", "float", "double") else "*"), f"tiny::optional<{t}>")
        out.append(trait(f"N{k}", v, vis, f"tiny::optional<{t}>", t, t, None, None, None, t != "bool"))
        k += 1
    for _ in range(4):
        t = r.choice(list(INTS))
        lo, hi = INTS[t]
        x = lit(r.choice([lo, hi, 0, r.randint(lo, hi)]))
        v = need(choose(vis, False, "sentinel"), "a sentinel")
        out.append(trait(f"N{k}", v, vis, f"tiny::optional<{t}, {x}>", t, t, None, None, x, False))
        k += 1
    v = choose(vis, False, "separate") if separate else None
    if v:
        for t in ("int", "Some", "char"):
            out.append(trait(f"N{k}", v, vis, f"tiny::optional<{t}>", t, "bool", None, None, None, False).replace("lay::fill(t, s);", "(void)t; (void)s;"))
            k += 1
    for i in range(n):
        s = structs.gen(r, f"S{i}")
        out.append(s.text)
        known = [m for m in s.members if m[1] in structs.KNOWN and not m[2] and m[1] != "void *"]
        ints = [m for m in s.members if m[1] in INTS and not m[2]]
        r.shuffle(known)
        r.shuffle(ints)
        for m in known[:2]:
            opt = f"tiny::optional<{s.name}, &{s.name}::{m[0]}>"
            v = need(choose(vis, True, m[1] if m[1] in ("bool", "float", "double") else "*"), opt)
            out.append(trait(f"N{k}", v, vis, opt, s.name, m[1], s, m, None, m[1] != "bool"))
            k += 1
        for m in ints[:1]:
            lo, hi = INTS[m[1]]
            x = lit(r.choice([lo, hi, 0, r.randint(lo, hi)]))
            opt = f"tiny::optional<{s.name}, &{s.name}::{m[0]}, {x}>"
            v = need(choose(vis, True, "sentinel"), opt)
            out.append(trait(f"N{k}", v, vis, opt, s.name, m[1], s, m, x, False))
            k += 1
    return "\n".join(out)


NSPROG = """
#include <cstdio>
#include <cxxabi.h>
#include <string>
#include <tiny/optional.h>
struct S { int i; double d; };
template <class T> void show() { std::printf("%s\\n", abi::__cxa_demangle(typeid(T).name(), nullptr, nullptr, nullptr)); }
int main() { show<tiny::optional<int>>(); show<tiny::optional<double>>(); show<tiny::optional<S, &S::d>>(); show<tiny::optional<S, &S::i, 3>>(); show<tiny::optional_aip<int>>(); show<tiny::optional_inplace<int, S>*>(); }
"""


def check(ctx):
    ctx.rule = ("one case = an optional type (bool, float, double, data/function pointers, sentinels, separate flag, and generated structs with the flag in such a member) and a history of up to 10 operations "
                "storing values, random bits and patterns one or two bits away from the reserved one; after each step the IsEmpty expression, the displayed string and the listed items of the visualizer that "
                "applies are evaluated on the object and compared with has_value(). Non-trivial: the optional was filled and emptied. namespaces: the inline namespace in the patterns against the real one.")
    path = os.path.join(vp.INC, "tiny_optional.natvis")
    files, n, cases = 6, 5, 2000
    cfgs = ["g17", "g32", "g20n", "g32n", "g17", "g32"]
    if ctx.thorough:
        files, n, cases = 48, 8, 20000
        cfgs = ["g17", "g32", "g20n", "g32n", "g23", "g17o"]
    try:
        vis = parse(path)
        if not vis:
            raise BadNatvis("no visualizers")
        # Namespace
        for cfg in ["g17", "c20", "g32"]:
            src = os.path.join(ctx.dir, f"ns-{cfg}.cpp")
            open(src, "w").write(NSPROG)
            ok, log = ctx.compile(cfg, src, src[:-4])
            if not ok:
                raise vp.HarnessError(log[:1000])
            rc, out, err = ctx.run_cmd([src[:-4]])
            real = set(re.findall(r"tiny::(tiny\w+)::", out))
            if rc or not real:
                raise vp.HarnessError(f"no namespace: {out} {err}")
            for v in vis:
                ctx.count((cfg, v.name), True, label="namespace")
                if set(v.ns) != real:
                    ctx.violation({"kind": "natvis", "what": "ns", "cfg": cfg}, f"natvis/{cfg}: the visualizer {v.name} names the namespace {sorted(set(v.ns))}, but the optionals are in {sorted(real)}")
                    return
        # The separate flag is not covered by the property; it is looked at if its members can be found by the names in the file.
        v = choose(vis, False, "separate")
        src = os.path.join(ctx.dir, "sep.cpp")
        open(src, "w").write("#include <tiny/optional.h>\nint main() { tiny::optional<int> o; auto & mStorage = o.mStorage; return "
                             + (f"({v.displays[0][0]}) ? 0 : 1" if v and v.displays and v.displays[0][0] else "*") + "; }\n")
        separate, _ = ctx.compile("g17", src, src[:-4], extra=["-fno-access-control"])
        ctx.coverage["separate_flag_visualizer_evaluated"] = bool(separate)
        jobs = []
        for f in range(files):
            src = os.path.join(ctx.dir, f"nat{f}.cpp")
            open(src, "w").write(make(ctx.rng, vis, n, separate))
            jobs.append({"src": src, "cfg": cfgs[f % len(cfgs)], "cases": cases, "extra": ["-fpermissive", "-fno-strict-aliasing", "-fno-access-control"]})
    except BadNatvis as e:
        ctx.violation({"kind": "natvis", "what": str(e)}, f"natvis: {e}")
        return
    ctx.harness(jobs)
