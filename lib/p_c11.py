"""Generated payload classes; every trait of every optional kind is compared with std::optional of the same payload."""
import vp, table
LEVEL = "exploration"
PRE = '#include "traits.h"\n'


def payload(r, k):
    n = f"P{k}"
    L = []
    nx = lambda: r.choice(["", " noexcept"])
    memi = r.choice(["", "", "", "", " const"])
    L.append(f"  int{memi} flagI = 0; double flagD = 0; bool flagB = false; int * flagP = nullptr;")
    if r.random() < 0.25:
        L.append("  struct custom_flag {};")
    c = r.choice(["none", "yes", "yes", "del"])
    if c != "none":
        L.append(f"  {n}(){'= delete' if c == 'del' else nx() + ' {}'};" if c == "del" else f"  {n}(){nx()} {{}}")
    cc = r.choice(["yes", "yes", "yes", "del", "trivial"])
    mc = r.choice(["yes", "yes", "yes", "absent", "del", "trivial"]) if cc != "del" else r.choice(["yes", "yes", "absent"])
    ca = r.choice(["yes", "yes", "yes", "del", "absent", "trivial"])
    ma = r.choice(["yes", "yes", "yes", "absent", "del", "trivial"])
    expl = "explicit " if r.random() < 0.04 else ""
    if cc == "yes":
        L.append(f"  {expl}{n}({n} const &){nx()} {{}}")
    elif cc == "nonconst":
        L.append(f"  {n}({n} &){nx()} {{}}")
    elif cc == "trivial":
        L.append(f"  {n}({n} const &) = default;")
    else:
        L.append(f"  {n}({n} const &) = delete;")
    if mc == "yes":
        L.append(f"  {n}({n} &&){nx()} {{}}")
    elif mc == "trivial":
        L.append(f"  {n}({n} &&) = default;")
    elif mc == "del":
        L.append(f"  {n}({n} &&) = delete;")
    ref = r.choice(["", "", "", "", " &"])
    ret = r.choice([f"{n} &", f"{n} &", "void"])
    body = "{ return *this; }" if ret != "void" else "{}"
    if memi:
        ca = {"trivial": "yes", "absent": "yes"}.get(ca, ca)
        ma = {"trivial": "yes"}.get(ma, ma)
    if ca == "yes":
        L.append(f"  {ret} operator=({n} const &){ref}{nx()} {body}")
    elif ca == "trivial":
        L.append(f"  {n} & operator=({n} const &) = default;")
    elif ca == "del":
        L.append(f"  {n} & operator=({n} const &) = delete;")
    if ma == "yes":
        L.append(f"  {ret} operator=({n} &&){ref}{nx()} {body}")
    elif ma == "trivial":
        L.append(f"  {n} & operator=({n} &&) = default;")
    elif ma == "del":
        L.append(f"  {n} & operator=({n} &&) = delete;")
    if not any(" operator=(" in l for l in L) and ca == "absent" and mc != "absent":
        pass
    for a in ("A0", "A1", "A2", "A3", "int"):
        w = r.choice(["none", "none", "impl", "expl"])
        ty = r.choice([a, f"{a} const &", f"{a} &", f"{a} &&"])
        if w == "impl":
            L.append(f"  {n}({ty}){nx()} {{}}")
        elif w == "expl":
            L.append(f"  explicit {n}({ty}){nx()} {{}}")
        if r.random() < 0.4:
            ty = r.choice([a, f"{a} const &", f"{a} &", f"{a} &&"])
            L.append(f"  {n} & operator=({ty}){ref}{nx()} {{ return *this; }}")
    if r.random() < 0.4:
        L.append(f"  {r.choice(['', 'explicit '])}{n}(A0, A1) {{}}")
    if r.random() < 0.3:
        L.append(f"  {r.choice(['', 'explicit '])}{n}(std::initializer_list<int>{r.choice(['', ', A2'])}) {{}}")
    if r.random() < 0.1:
        L.append(f"  template <class U, class = std::enable_if_t<std::is_pointer_v<std::decay_t<U>>>> {n}(U &&) {{}}")
    post = ""
    sw = r.choice(["none", "none", "nx", "throws", "del", "hidden"])
    if sw == "nx":
        L.append(f"  friend void swap({n} &, {n} &) noexcept {{}}")
    elif sw == "throws":
        L.append(f"  friend void swap({n} &, {n} &) {{}}")
    elif sw == "del":
        L.append(f"  friend void swap({n} &, {n} &) = delete;")
    elif sw == "hidden":
        L.append(f"  void swap({n} &) noexcept {{}}")
    if r.random() < 0.5:
        post = f"template <> struct std::hash<{n}> {{ std::size_t operator()({n} const &) const{r.choice(['', ' noexcept'])} {{ return 1; }} }};"
    L.append(f"  ~{n}() {{}}" if r.random() < 0.5 else "")
    kw = r.choice(["struct", "struct", "struct"])
    text = f"{kw} {n}{r.choice(['', '', '', ' final'])}\n{{\n" + "\n".join(x for x in L if x) + "\n};\n" + post
    return n, text, ("custom_flag" in text), bool(memi)


FIXED = [("int", ["tiny::optional<int>", "tiny::optional<int, 3>", "tiny::optional_aip<int>", "tiny::optional_sentinel_via_type<int, SentMinus1>"]),
         ("unsigned char", ["tiny::optional<unsigned char>", "tiny::optional<unsigned char, 3>"]),
         ("long long", ["tiny::optional<long long>", "tiny::optional_aip<long long>"]),
         ("double", ["tiny::optional<double>"]), ("float", ["tiny::optional<float>"]), ("bool", ["tiny::optional<bool>", "tiny::optional<bool, true>"]),
         ("int *", ["tiny::optional<int *>", "tiny::optional<int *, nullptr>"]), ("void *", ["tiny::optional<void *>"]),
         ("int const", ["tiny::optional<int const>", "tiny::optional<int const, 3>"]), ("double const", ["tiny::optional<double const>"]),
         ("long double", ["tiny::optional<long double>"]), ("std::string", ["tiny::optional<std::string>"]), ("std::string const", ["tiny::optional<std::string const>"]),
         ("std::unique_ptr<int>", ["tiny::optional<std::unique_ptr<int>>"]), ("std::vector<int>", ["tiny::optional<std::vector<int>>"]),
         ("std::nullptr_t", ["tiny::optional<std::nullptr_t>"]), ("PlainEnum", ["tiny::optional<PlainEnum>", "tiny::optional<PlainEnum, pe1>"]),
         ("ScopedEnum", ["tiny::optional<ScopedEnum>", "tiny::optional<ScopedEnum, ScopedEnum::b>"]), ("FnPtr", ["tiny::optional<FnPtr>", "tiny::optional<FnPtr, nullptr>"]),
         ("MemObjPtr", ["tiny::optional<MemObjPtr>"]), ("MemFnPtr", ["tiny::optional<MemFnPtr>"]), ("char", ["tiny::optional<char>", "tiny::optional<char, 'x'>"]),
         ("char const *", ["tiny::optional<char const *>"]), ("Incomplete *", ["tiny::optional<Incomplete *>"]), ("int const * const", ["tiny::optional<int const * const>"])]


def check(ctx):
    ctx.rule = ("one case = one generated payload class (each special member, converting constructors and assignments from 5 argument types, two-argument "
                "and initializer_list constructors, swap, hash independently present/deleted/explicit/noexcept/ref-qualified) x one optional kind x all "
                "~190 traits, compared with std::optional of that payload. Every case is non-trivial; distinct by class text and kind.")
    cfgs = ["g17", "c17", "g23", "c20", "g17noub"]
    n = 50
    if ctx.thorough:
        cfgs = ["g17", "g20", "g23", "c17", "c20", "c23n", "g32", "g17noub", "g20nobitmem"] * 4
        n = 150
    jobs = []
    for ci, cfg in enumerate(cfgs):
        es = []
        for t, forms in FIXED:
            for f in forms:
                es.append({"desc": f"{f} has the traits of std::optional<{t}>", "code": f"if (!traitsSame<{f}, {t}>()) ok = false;", "label": "fixed payload"})
        for k in range(n):
            name, text, custom, cmem = payload(ctx.rng, k)
            forms = [f"tiny::optional<{name}>", f"tiny::optional<{name}, &{name}::flagD>" if "nobit" not in cfg or "mem" in cfg else f"tiny::optional<{name}>", f"tiny::optional<{name}, &{name}::flagI, -1>",
                     f"tiny::optional_sentinel_via_type<{name}, SentMinus1, &{name}::flagI>", f"tiny::optional_inplace<{name}, RawManip<{name}>>"]
            for f in [forms[0]] + ctx.rng.sample(forms[1:], 2):
                es.append({"desc": f"{f} has the traits of std::optional<{name}> for {text!r}", "decl": text, "code": f"if (!traitsSame<{f}, {name}>()) ok = false;", "control": f"if (!traitsSame<std::optional<{name}>, {name}>()) ok = false;", "label": "generated payload"})
            if ctx.rng.random() < 0.2:
                f = f"tiny::optional<{name} const>"
                es.append({"desc": f"{f} has the traits of std::optional<{name} const> for {text!r}", "decl": text, "code": f"if (!traitsSame<{f}, {name} const>()) ok = false;", "control": f"if (!traitsSame<std::optional<{name}>, {name}>()) ok = false;", "label": "generated const payload"})
        for q in range(0, len(es), 60):
            jobs.append((f"traits{ci}", cfg, es[q:q + 60], q))
    ctx.parallel(lambda j: table.run(ctx, f"{j[0]}-{j[3]}", j[1], PRE, j[2], chunk=60), jobs)
