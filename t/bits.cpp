// C02: every value of bool, float, double and pointers survives; only one reserved bit pattern means "empty".
#include "pbt.h"
#include <limits>
#include <memory>
#include <tiny/optional.h>
#include <type_traits>
#include <vector>

constexpr bool k64 = sizeof(void *) == 8;

template <class T>
uint64_t bitsOf(T const & t)
{
  static_assert(sizeof(T) <= 8);
  uint64_t r = 0;
  memcpy(&r, const_cast<void const *>(static_cast<void const volatile *>(&t)), sizeof t);
  return r;
}
template <class T>
T fromBits(uint64_t b)
{
  T t;
  memcpy(&t, &b, sizeof t);
  return t;
}

// ------------------------------------------------------------------------------------------------ kinds
using Fp = int (*)(int);
using FpN = void (*)() noexcept;
struct Incomplete;

template <class T>
struct SMid
{
  char a;
  T flag;
  short b;
};
template <class T>
struct SFirst
{
  T flag;
  long long z;
};
template <class T>
struct SLast
{
  long long z;
  char c[3];
  T flag;
};
struct Base1
{
  int q;
  virtual ~Base1() = default;
};
template <class T>
struct SDerived : Base1
{
  short s;
  T flag;
  std::vector<int> v;
};
template <class T>
struct SBitfield
{
  unsigned x : 3;
  unsigned y : 7;
  T flag;
  bool last;
};
template <class T>
struct alignas(32) SOver
{
  T flag;
  unsigned char tail[33];
};

// Flag type F (cv removed), optional type O, payload P.
template <class O_, class F_>
struct Direct
{
  using O = O_;
  using F = F_;
  using P = std::remove_cv_t<typename O::value_type>;
  static P make(uint64_t b, uint64_t) { return fromBits<P>(b); }
  static uint64_t flag(typename O::value_type const & p) { return bitsOf(p); }
  static uint64_t rest(typename O::value_type const &) { return 0; }
  static unsigned char const * flagAddr(O const & o) { return reinterpret_cast<unsigned char const *>(&o); }
};
template <class S, class F_>
struct Mem
{
  using O = tiny::optional<S, &S::flag>;
  using F = F_;
  using P = S;
  static P make(uint64_t b, uint64_t r)
  {
    S s{};
    memcpy(&s.flag, &b, sizeof(F));
    setRest(s, r);
    return s;
  }
  template <class T>
  static void setRest(SMid<T> & s, uint64_t r)
  {
    s.a = static_cast<char>(r);
    s.b = static_cast<short>(r >> 8);
  }
  template <class T>
  static void setRest(SFirst<T> & s, uint64_t r)
  {
    s.z = static_cast<long long>(r);
  }
  template <class T>
  static void setRest(SLast<T> & s, uint64_t r)
  {
    s.z = static_cast<long long>(r);
    s.c[0] = s.c[2] = static_cast<char>(r >> 3);
  }
  template <class T>
  static void setRest(SDerived<T> & s, uint64_t r)
  {
    s.q = static_cast<int>(r);
    s.s = static_cast<short>(r >> 9);
    s.v.assign(static_cast<size_t>(r % 4), static_cast<int>(r >> 4));
  }
  template <class T>
  static void setRest(SBitfield<T> & s, uint64_t r)
  {
    s.x = static_cast<unsigned>(r) & 7u;
    s.y = static_cast<unsigned>(r >> 5) & 127u;
    s.last = (r & 1) != 0;
  }
  template <class T>
  static void setRest(SOver<T> & s, uint64_t r)
  {
    for (unsigned i = 0; i < 33; ++i) {
      s.tail[i] = static_cast<unsigned char>(r + i);
    }
  }
  static uint64_t flag(S const & s) { return bitsOf(s.flag); }
  template <class T>
  static uint64_t rest(SMid<T> const & s)
  {
    return static_cast<unsigned char>(s.a) + 256u * static_cast<unsigned short>(s.b);
  }
  template <class T>
  static uint64_t rest(SFirst<T> const & s)
  {
    return static_cast<uint64_t>(s.z);
  }
  template <class T>
  static uint64_t rest(SLast<T> const & s)
  {
    return static_cast<uint64_t>(s.z) ^ static_cast<unsigned char>(s.c[0]) ^ (static_cast<uint64_t>(static_cast<unsigned char>(s.c[2])) << 9);
  }
  template <class T>
  static uint64_t rest(SDerived<T> const & s)
  {
    return static_cast<uint32_t>(s.q) + (static_cast<uint64_t>(static_cast<unsigned short>(s.s)) << 32)
           + (static_cast<uint64_t>(s.v.size()) << 50) + (s.v.empty() ? 0 : static_cast<uint32_t>(s.v[0]));
  }
  template <class T>
  static uint64_t rest(SBitfield<T> const & s)
  {
    return s.x + 8u * s.y + 1024u * s.last;
  }
  template <class T>
  static uint64_t rest(SOver<T> const & s)
  {
    uint64_t h = 0;
    for (unsigned char c : s.tail) {
      h = h * 31 + c;
    }
    return h;
  }
};

template <class F>
constexpr bool isFloat = std::is_floating_point_v<F>;

template <class F>
bool isSnan(uint64_t b)
{
  if constexpr (std::is_same_v<F, double>) {
    return (b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (b & 0x000fffffffffffffull) != 0 && !(b & 0x0008000000000000ull);
  }
  else if constexpr (std::is_same_v<F, float>) {
    return (b & 0x7f800000ull) == 0x7f800000ull && (b & 0x007fffffull) != 0 && !(b & 0x00400000ull);
  }
  return false;
}

// The reserved pattern, read from the bytes of an empty optional of just that type.
template <class F>
uint64_t reserved()
{
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  return 0x1234567; // none: every value is possible; just some value to centre on
#else
  static tiny::optional<F> const o;
  static_assert(sizeof o == sizeof(F));
  uint64_t b = 0;
  memcpy(&b, static_cast<void const *>(&o), sizeof(F));
  return b;
#endif
}

template <class F>
uint64_t drawPattern(pbt::Src & s)
{
  uint64_t const mask = sizeof(F) == 8 ? ~0ull : (1ull << (8 * sizeof(F))) - 1;
  if constexpr (std::is_same_v<F, bool>) {
    return s.draw(2);
  }
  uint64_t const r = reserved<F>();
  uint64_t v = 0;
  switch (s.draw(9)) {
  case 0: {
    if constexpr (isFloat<F>) {
      using L = std::numeric_limits<F>;
      F const sp[] = {F(0), F(1), F(-1), L::min(), L::max(), L::lowest(), L::epsilon(), L::round_error(), L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(), L::signaling_NaN(), L::denorm_min(), -L::denorm_min(), -F(0), F(0.1), static_cast<F>(3.14159)};
      v = bitsOf(sp[s.draw(18)]);
    }
    else {
      static int some[4];
      uint64_t const sp[] = {0, 1, 2, 3, ~0ull, ~1ull, ~2ull, ~3ull, ~4ull, ~5ull, ~6ull, ~7ull, 0x7fffffffffffull, 0xffff800000000000ull, 0xffffffff80000000ull, reinterpret_cast<uintptr_t>(&some[0]), reinterpret_cast<uintptr_t>(&some[3]), 0x7fffffffull, 0x80000000ull, 0x8000000000000000ull};
      v = sp[s.draw(20)];
    }
    break;
  }
  case 1: v = r ^ (1ull << s.draw(8 * sizeof(F))); break;
  case 2: v = r ^ (1ull << s.draw(8 * sizeof(F))) ^ (1ull << s.draw(8 * sizeof(F))); break;
  case 3: v = r + 1 + s.draw(64); break;
  case 4: v = r - 1 - s.draw(64); break;
  case 5: // one byte / half differs arbitrarily
  {
    unsigned const byte = s.draw(sizeof(F));
    v = (r & ~(0xffull << (8 * byte))) | (static_cast<uint64_t>(s.draw(256)) << (8 * byte));
    break;
  }
  case 6: v = s.flip() ? ((r & 0xffffffffull) | (s.bits64() << 32)) : ((r & ~0xffffffffull) | s.draw(0)); break;
  case 7: // NaNs with any payload
    if constexpr (std::is_same_v<F, double>) {
      v = s.bits64() | 0x7ff0000000000000ull;
    }
    else if constexpr (std::is_same_v<F, float>) {
      v = s.draw(0) | 0x7f800000ull;
    }
    else {
      v = s.bits64() | 1;
    }
    break;
  default: v = s.bits64(); break;
  }
  v &= mask;
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) && !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  if (v == r) {
    v = r ^ 1;
  }
#endif
  if (!k64 && isSnan<F>(v)) {
    // x87 moves make signaling NaNs quiet, with every type.
    v |= std::is_same_v<F, double> ? 0x0008000000000000ull : 0x00400000ull;
    if (v == r) {
      v ^= 1;
    }
  }
  return v;
}

inline char const * const inNames[] = {"construct-lvalue", "construct-rvalue", "in_place", "assign-to-empty", "assign-to-engaged", "emplace", "copy", "move", "copy-assign-empty", "copy-assign-engaged", "move-assign", "swap", "make_optional", "transform", "write-through", "vector", "or value via and_then", "array"};
inline char const * const outNames[] = {"*o", "*const", "*move", "value()", "value() const", "move value()", "->", "value_or", "move value_or", "copy", "and_then", "transform", "==" };

template <class K, class O>
void checkOut(O & o, uint64_t want, uint64_t wantRest, unsigned out, unsigned in, typename K::P const & model)
{
  using P = typename K::P;
  PBT_CHECK(o.has_value(), "value with bits %llx stored via %s is taken for empty", (unsigned long long)want, inNames[in]);
  PBT_CHECK(static_cast<bool>(o), "operator bool: value with bits %llx stored via %s is taken for empty", (unsigned long long)want, inNames[in]);
  O const & co = o;
  uint64_t got = 0, rest = 0;
  auto see = [&](auto const & p) {
    got = K::flag(p);
    rest = K::rest(p);
  };
  switch (out) {
  case 0: see(*o); break;
  case 1: see(*co); break;
  case 2: {
    auto && r = *std::move(o);
    see(r);
    break;
  }
  case 3: see(o.value()); break;
  case 4: see(co.value()); break;
  case 5: {
    auto && r = std::move(o).value();
    see(r);
    break;
  }
  case 6: see(*o.operator->()); break;
  case 7: {
    P const d = K::make(0, 0);
    auto const v = co.value_or(d);
    see(v);
    break;
  }
  case 8: {
    P const d = K::make(0, 0);
    O tmp(o);
    auto const v = std::move(tmp).value_or(d);
    see(v);
    break;
  }
  case 9: {
    O const c(co);
    PBT_CHECK(c.has_value(), "copy of value with bits %llx is empty", (unsigned long long)want);
    see(*c);
    break;
  }
  case 10: {
    auto const x = co.and_then([&](auto const & p) {
      see(p);
      return tiny::optional<int>(5);
    });
    PBT_CHECK(x.has_value(), "and_then did not call the callback for bits %llx", (unsigned long long)want);
    break;
  }
  case 11: {
    auto const x = co.transform([&](auto const & p) {
      see(p);
      return 5;
    });
    PBT_CHECK(x.has_value(), "transform did not call the callback for bits %llx", (unsigned long long)want);
    break;
  }
  default: see(*o); break;
  }
  PBT_CHECK(got == want, "bits %llx stored via %s read back as %llx via %s", (unsigned long long)want, inNames[in], (unsigned long long)got, outNames[out]);
  PBT_CHECK(rest == wantRest, "other members changed: stored via %s, read via %s", inNames[in], outNames[out]);
  (void)model;
}

template <class K>
void roundtrip(pbt::Src & s)
{
  using O = typename K::O;
  using P = typename K::P;
  using V = typename O::value_type;
  constexpr bool assignable = std::is_copy_assignable_v<V>;
  uint64_t const b = drawPattern<typename K::F>(s);
  uint64_t const b2 = drawPattern<typename K::F>(s);
  uint64_t const r = s.bits64();
  unsigned in = s.draw(18);
  if (!assignable && (in == 3 || in == 4 || (in >= 8 && in <= 11) || in == 14 || in == 15)) {
    in %= 3;
  }
  unsigned const out = s.draw(12);
  P const v = K::make(b, r);
  P const other = K::make(b2, r ^ 0xff);
  uint64_t const rest = K::rest(v);
  s.note("%s -> %s bits %llx (engaged before with %llx)", inNames[in], outNames[out], (unsigned long long)b, (unsigned long long)b2);
  s.label(inNames[in]);
  if (b != 0) {
    s.nontrivial();
  }
  switch (in) {
  case 0: {
    O o(v);
    checkOut<K>(o, b, rest, out, in, v);
    break;
  }
  case 1: {
    P tmp(v);
    O o(std::move(tmp));
    checkOut<K>(o, b, rest, out, in, v);
    break;
  }
  case 2: {
    O o(std::in_place, v);
    checkOut<K>(o, b, rest, out, in, v);
    break;
  }
  case 3:
    if constexpr (assignable) {
      O o;
      PBT_CHECK(!o.has_value(), "default constructed optional is not empty");
      o = v;
      checkOut<K>(o, b, rest, out, in, v);
    }
    break;
  case 4:
    if constexpr (assignable) {
      O o(other);
      o = v;
      checkOut<K>(o, b, rest, out, in, v);
    }
    break;
  case 5: {
    O o(other);
    o.emplace(v);
    checkOut<K>(o, b, rest, out, in, v);
    o.reset();
    PBT_CHECK(!o.has_value(), "optional is not empty after reset()");
    o.emplace(v);
    checkOut<K>(o, b, rest, out, in, v);
    break;
  }
  case 6: {
    O const a(v);
    O o(a);
    checkOut<K>(o, b, rest, out, in, v);
    break;
  }
  case 7: {
    O a(v);
    O o(std::move(a));
    PBT_CHECK(a.has_value(), "a moved-from optional became empty");
    checkOut<K>(o, b, rest, out, in, v);
    break;
  }
  case 8:
    if constexpr (assignable) {
      O const a(v);
      O o;
      o = a;
      checkOut<K>(o, b, rest, out, in, v);
    }
    break;
  case 9:
    if constexpr (assignable) {
      O const a(v);
      O o(other);
      o = a;
      checkOut<K>(o, b, rest, out, in, v);
    }
    break;
  case 10:
    if constexpr (assignable) {
      O a(v);
      O o;
      if (r & 1) {
        o = other;
      }
      o = std::move(a);
      checkOut<K>(o, b, rest, out, in, v);
    }
    break;
  case 11:
    if constexpr (assignable) {
      O a(v);
      O o;
      bool const two = (r & 1) != 0;
      if (two) {
        o = other;
      }
      o.swap(a);
      PBT_CHECK(a.has_value() == two, "wrong state after swap");
      checkOut<K>(o, b, rest, out, in, v);
    }
    break;
  case 12:
    if constexpr (std::is_same_v<O, tiny::optional<P>>) {
      auto o = tiny::make_optional(v);
      checkOut<K>(o, b, rest, out, in, v);
    }
    else {
      O o{v};
      checkOut<K>(o, b, rest, out, in, v);
    }
    break;
  case 13:
    if constexpr (std::is_same_v<O, tiny::optional<P>>) {
      tiny::optional<int> const src(3);
      auto o = src.transform([&](int) { return v; });
      checkOut<K>(o, b, rest, out, in, v);
    }
    else {
      O o = v;
      checkOut<K>(o, b, rest, out, in, v);
    }
    break;
  case 14:
    if constexpr (assignable) {
      O o(other);
      switch (r % 3) {
      case 0: *o = v; break;
      case 1: o.value() = v; break;
      default: *o.operator->() = v; break;
      }
      checkOut<K>(o, b, rest, out, in, v);
    }
    break;
  case 15:
    if constexpr (assignable) {
      std::vector<O> vec(3);
      vec[1] = v;
      vec.insert(vec.begin(), O(other));
      vec.erase(vec.begin() + 1);
      PBT_CHECK(vec[0].has_value() && !vec[2].has_value(), "neighbour in vector has the wrong state");
      checkOut<K>(vec[1], b, rest, out, in, v);
    }
    break;
  case 16: {
    tiny::optional<int> const src(3);
    auto o = src.and_then([&](int) { return O(v); });
    checkOut<K>(o, b, rest, out, in, v);
    break;
  }
  default: {
    O arr[3] = {O(), O(v), O()};
    PBT_CHECK(!arr[0].has_value() && !arr[2].has_value(), "array neighbours are not empty");
    checkOut<K>(arr[1], b, rest, out, in, v);
    break;
  }
  }
}

// Properties of the reserved pattern itself.
template <class F>
void pattern(pbt::Src & s)
{
  s.nontrivial();
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) && !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  uint64_t const r = reserved<F>();
  // The same pattern for all ways to become empty and all cv variants.
  tiny::optional<F> o;
  switch (s.draw(5)) {
  case 0: break;
  case 1: o = fromBits<F>(drawPattern<F>(s)); o.reset(); break;
  case 2: o = fromBits<F>(drawPattern<F>(s)); o = std::nullopt; break;
  case 3: {
    tiny::optional<F> e;
    o = fromBits<F>(drawPattern<F>(s));
    o.swap(e);
    break;
  }
  default: o = tiny::optional<F>(std::nullopt); break;
  }
  PBT_CHECK(!o.has_value(), "not empty");
  uint64_t b = 0;
  memcpy(&b, static_cast<void const *>(&o), sizeof(F));
  PBT_CHECK(b == r, "different bit patterns mean empty: %llx and %llx", (unsigned long long)r, (unsigned long long)b);
  if constexpr (std::is_same_v<F, bool>) {
    PBT_CHECK(r != 0 && r != 1, "bool sentinel is a valid bool");
  }
  else if constexpr (std::is_same_v<F, double>) {
    PBT_CHECK((r & 0x7ff8000000000000ull) == 0x7ff8000000000000ull, "the sentinel %llx is no quiet NaN", (unsigned long long)r);
    uint64_t const pay = r & 0x0007ffffffffffffull;
    PBT_CHECK(pay != 0 && pay != 0x0007ffffffffffffull && (r & 0xffffffffull) != 0, "the sentinel %llx is a common NaN", (unsigned long long)r);
  }
  else if constexpr (std::is_same_v<F, float>) {
    PBT_CHECK((r & 0x7fc00000ull) == 0x7fc00000ull, "the sentinel %llx is no quiet NaN", (unsigned long long)r);
    uint64_t const pay = r & 0x003fffffull;
    PBT_CHECK(pay != 0 && pay != 0x003fffffull, "the sentinel %llx is a common NaN", (unsigned long long)r);
  }
  else if constexpr (k64) {
    PBT_CHECK(r & 1, "the sentinel address %llx is not odd", (unsigned long long)r);
    int64_t const top = static_cast<int64_t>(r) >> 47;
    PBT_CHECK(top != 0 && top != -1, "the sentinel address %llx is canonical", (unsigned long long)r);
    int64_t const top57 = static_cast<int64_t>(r) >> 56;
    PBT_CHECK(top57 != 0, "the sentinel address %llx is a user address with 5-level paging", (unsigned long long)r);
  }
  else {
    PBT_CHECK(r & 1, "the sentinel address %llx is not odd", (unsigned long long)r);
    PBT_CHECK(r < 0xfffffffaull && r > 0xffffull, "the sentinel address %llx is a pseudo handle or small integer", (unsigned long long)r);
  }
#endif
}

#define D(name, T, F)                                                                                                  \
  static pbt::Reg reg_##name("direct/" #name, &roundtrip<Direct<tiny::optional<T>, F>>);
#define MM(name, F)                                                                                                    \
  static pbt::Reg reg_mid_##name("mid/" #name, &roundtrip<Mem<SMid<F>, F>>, 50);                                       \
  static pbt::Reg reg_fst_##name("first/" #name, &roundtrip<Mem<SFirst<F>, F>>, 50);                                   \
  static pbt::Reg reg_lst_##name("last/" #name, &roundtrip<Mem<SLast<F>, F>>, 50);                                     \
  static pbt::Reg reg_der_##name("derived/" #name, &roundtrip<Mem<SDerived<F>, F>>, 50);                               \
  static pbt::Reg reg_bit_##name("bitfield/" #name, &roundtrip<Mem<SBitfield<F>, F>>, 50);                             \
  static pbt::Reg reg_ovr_##name("over/" #name, &roundtrip<Mem<SOver<F>, F>>, 50);
#define PAT(name, F) static pbt::Reg reg_p_##name("reserved/" #name, &pattern<F>, 10);

using IntP = int *;
using VoidP = void *;
using CCP = char const *;
using IncP = Incomplete *;
using PP = double **;
using VVP = void const volatile *;
using BP = bool *;
#if PART == 0
D(bool, bool, bool)
D(double, double, double)
D(float, float, float)
D(intp, IntP, IntP)
D(voidp, VoidP, VoidP)
D(ccp, CCP, CCP)
D(incp, IncP, IncP)
D(pp, PP, PP)
D(vvp, VVP, VVP)
D(fp, Fp, Fp)
D(fpn, FpN, FpN)
PAT(bool, bool)
PAT(double, double)
PAT(float, float)
PAT(intp, IntP)
PAT(voidp, VoidP)
PAT(fp, Fp)
PAT(incp, IncP)
#elif PART == 1
D(cbool, bool const, bool)
D(vbool, bool volatile, bool)
D(cdouble, double const, double)
D(vdouble, double volatile, double)
D(cfloat, float const, float)
D(cvfloat, float const volatile, float)
D(cintp, IntP const, IntP)
D(vintp, IntP volatile, IntP)
D(cfp, Fp const, Fp)
D(bp, BP, BP)
MM(bool, bool)
MM(double, double)
#else
MM(float, float)
MM(voidp, VoidP)
MM(fp, Fp)
#endif
