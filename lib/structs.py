"""Random struct layouts. Members are described so that C++ code for creation and comparison can be generated."""

SCALARS = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long",
           "unsigned long long", "float", "double", "long double", "int *", "void *", "char const *", "char16_t", "wchar_t"]
KNOWN = ["bool", "float", "double", "int *", "void *", "char const *", "FnPtr"]
PRE = """
using FnPtr = int (*)(int);
struct MGap { unsigned char g[3]; };
"""


class Struct:
    def __init__(self, name):
        self.name, self.members, self.text = name, [], ""


def gen(r, name, mustKnown=True, custom=None):
    """custom: names of further member types."""
    s = Struct(name)
    n = r.randint(1, 6)
    types = SCALARS + ["FnPtr", "MGap"] + list(custom or [])
    for i in range(n):
        t = r.choice(types)
        arr = r.choice([0, 0, 0, 0, r.randint(1, 5)])
        s.members.append([f"m{i}", t, arr])
    if mustKnown:
        s.members.insert(r.randint(0, len(s.members)), ["flag", r.choice(KNOWN), 0])
    align = r.choice([0, 0, 0, 0, 16, 32, 64])
    kind = r.choice(["plain", "plain", "plain", "virtual", "base", "ctor", "class"])
    s.kind, s.align = kind, align
    base = ""
    lines = []
    if kind == "base":
        lines.append(f"struct {name}Base {{ {r.choice(['int', 'char', 'double', 'short'])} b0 = 3; }};")
        base = f" : {name}Base"
    lines.append(f"struct {f'alignas({align}) ' if align else ''}{name}{base}")
    lines.append("{")
    for m, t, a in s.members:
        al = r.choice(["", "", "", "", "alignas(16) "]) if t != "FnPtr" else ""
        lines.append(f"  {al}{t} {m}{f'[{a}]' if a else ''}{{}};")
    if kind == "virtual":
        lines.append(f"  virtual ~{name}() = default; virtual int vf() {{ return 1; }}")
    if kind == "ctor":
        lines.append(f"  {name}() {{}} ~{name}() {{}} {name}({name} const &) = default; {name} & operator=({name} const &) = default;")
    lines.append("};")
    s.text = "\n".join(lines)
    return s
