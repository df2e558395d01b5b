"""Integral types of the two data models and random literals for them."""
INTS64 = {
    "signed char": (8, True), "unsigned char": (8, False), "char": (8, True), "short": (16, True), "unsigned short": (16, False),
    "int": (32, True), "unsigned": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
    "unsigned long long": (64, False), "wchar_t": (32, True), "char16_t": (16, False), "char32_t": (32, False),
}
INTS32 = dict(INTS64, **{"long": (32, True), "unsigned long": (32, False)})


def ints(cfg32, std20):
    d = dict(INTS32 if cfg32 else INTS64)
    if std20:
        d["char8_t"] = (8, False)
    return d


def rng_of(t):
    w, s = t
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def literal(typename, v):
    """An expression of exactly that type with that value."""
    if v == -(1 << 63):
        e = "(-9223372036854775807LL - 1)"
    elif v > (1 << 63) - 1:
        e = f"{v}ULL"
    else:
        e = f"({v}LL)" if v < 0 else f"{v}LL"
    return f"static_cast<{typename}>({e})"


def interesting(r, lo, hi):
    c = [lo, lo + 1, hi, hi - 1, 0, 1, -1, 2, 42, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -2**31, -2**31 - 1, 2**63 - 1, 2**63, -2**63]
    c = [x for x in c if lo <= x <= hi]
    return r.choice(c) if r.random() < 0.6 else r.randint(lo, hi)
