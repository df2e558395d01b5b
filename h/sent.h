// C04: an optional with a sentinel is empty exactly for that one value.
#pragma once
#include "pbt.h"
#include <climits>
#include <limits>
#include <tiny/optional.h>
#include <type_traits>
#include <vector>

template <class F>
struct Wrap
{
  short a;
  F flag;
  int b;
};

template <class T>
using UInt = std::conditional_t<sizeof(T) == 1, uint8_t, std::conditional_t<sizeof(T) == 2, uint16_t, std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>>>;

// Values of a type, drawn around the sentinel.
template <class T, class = void>
struct Vals;

template <class T>
struct Vals<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
  static T draw(pbt::Src & s, T sent)
  {
    uint64_t const b = static_cast<uint64_t>(sent);
    uint64_t v = 0;
    switch (s.draw(9)) {
    case 0: v = b + 1 + s.draw(4); break;
    case 1: v = b - 1 - s.draw(4); break;
    case 2: v = b ^ (1ull << s.draw(8 * sizeof(T))); break;
    case 3: v = static_cast<uint64_t>(std::numeric_limits<T>::max()) - s.draw(3); break;
    case 4: v = static_cast<uint64_t>(std::numeric_limits<T>::min()) + s.draw(3); break;
    case 5: v = s.draw(5); break;
    case 6: v = 0 - static_cast<uint64_t>(s.draw(5)); break;
    case 7: v = b + (1ull << (8 * s.draw(sizeof(T) == 8 ? 8 : sizeof(T)))); break;
    default: v = s.bits64(); break;
    }
    T t = static_cast<T>(v);
    if (t == sent) {
      t = static_cast<T>(v ^ 1);
    }
    return t;
  }
};
template <>
struct Vals<bool>
{
  static bool draw(pbt::Src &, bool sent) { return !sent; }
};
template <class T>
struct Vals<T, std::enable_if_t<std::is_enum_v<T>>>
{
  using U = std::underlying_type_t<T>;
  static T draw(pbt::Src & s, T sent) { return static_cast<T>(Vals<U>::draw(s, static_cast<U>(sent))); }
};
template <class T>
struct Vals<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
  static T draw(pbt::Src & s, T sent)
  {
    using L = std::numeric_limits<T>;
    T v = 0;
    switch (s.draw(6)) {
    case 0: {
      // the neighbouring values
      v = sent;
      if constexpr (sizeof(T) <= 8) {
        UInt<T> b;
        memcpy(&b, &v, sizeof v);
        b = static_cast<UInt<T>>(b ^ (1u + s.draw(3)));
        memcpy(&v, &b, sizeof v);
      }
      else {
        v = sent * 2 + 1;
      }
      break;
    }
    case 1: {
      T const sp[] = {L::max(), L::lowest(), L::min(), L::epsilon(), T(1), T(-1), T(0), L::denorm_min()};
      v = sp[s.draw(8)];
      break;
    }
    case 2: v = -sent; break;
    case 3: v = static_cast<T>(static_cast<int32_t>(s.draw(0))) / T(16); break;
    case 4: v = static_cast<T>(static_cast<int>(s.draw(9)) - 4); break;
    default: v = sent + static_cast<T>(s.draw(5)) + T(1); break;
    }
    bool odd = false;
    if constexpr (sizeof(T) <= 8) {
      // By bits: NaN and, with -ffast-math (DAZ), infinite and denormal numbers, for which == is up to the optimizer.
      UInt<T> b;
      memcpy(&b, &v, sizeof v);
      constexpr UInt<T> expMask = sizeof(T) == 4 ? static_cast<UInt<T>>(0x7f800000u) : static_cast<UInt<T>>(0x7ff0000000000000ull);
      constexpr UInt<T> mantMask = sizeof(T) == 4 ? static_cast<UInt<T>>(0x007fffffu) : static_cast<UInt<T>>(0x000fffffffffffffull);
      odd = (b & expMask) == expMask && (b & mantMask) != 0;
#ifdef __FAST_MATH__
      odd = odd || (b & expMask) == expMask || ((b & expMask) == 0 && (b & mantMask) != 0);
#endif
    }
    if (odd || v == sent) {
      v = sent == T(7) ? T(8) : T(7);
    }
    return v;
  }
};
template <class T>
struct Vals<T, std::enable_if_t<std::is_pointer_v<T>>>
{
  static T draw(pbt::Src & s, T sent)
  {
    uintptr_t const b = reinterpret_cast<uintptr_t>(sent);
    uintptr_t v = 0;
    switch (s.draw(5)) {
    case 0: v = b + 1 + s.draw(9); break;
    case 1: v = b ^ (static_cast<uintptr_t>(1) << s.draw(8 * sizeof(T))); break;
    case 2: v = s.draw(3); break;
    case 3: v = ~static_cast<uintptr_t>(s.draw(8)); break;
    default: v = static_cast<uintptr_t>(s.bits64()); break;
    }
    if (v == b) {
      v = b + 4;
    }
    return reinterpret_cast<T>(v);
  }
};
struct LitA
{
  int x;
  long long y;
  friend constexpr bool operator==(LitA const & l, LitA const & r) noexcept { return l.x == r.x && l.y == r.y; }
};
template <>
struct Vals<LitA>
{
  static LitA draw(pbt::Src & s, LitA sent)
  {
    LitA v{Vals<int>::draw(s, sent.x), Vals<long long>::draw(s, sent.y)};
    switch (s.draw(3)) {
    case 0: v.x = sent.x; break;
    case 1: v.y = sent.y; break;
    default: break;
    }
    return v;
  }
};
// A class whose equality is coarser than its representation.
struct LitMod
{
  int x;
  friend constexpr bool operator==(LitMod const & l, LitMod const & r) noexcept { return l.x % 100 == r.x % 100; }
};
template <>
struct Vals<LitMod>
{
  static LitMod draw(pbt::Src & s, LitMod sent)
  {
    LitMod v{Vals<int>::draw(s, sent.x)};
    if (v == sent) {
      v.x = sent.x + 1;
    }
    return v;
  }
};

template <class T>
bool sameBytes(T const & a, T const & b)
{
  if constexpr (std::is_same_v<T, long double>) {
    return memcmp(&a, &b, 10) == 0;
  }
  else if constexpr (std::is_same_v<T, LitA>) {
    return a.x == b.x && a.y == b.y;
  }
  else {
    return memcmp(&a, &b, sizeof(T)) == 0;
  }
}

template <class T>
struct IsWrap : std::false_type
{
};
template <class F>
struct IsWrap<Wrap<F>> : std::true_type
{
  using Flag = F;
};

template <class T>
std::string str(T const & t)
{
  std::string r = "bytes";
  unsigned char b[sizeof(T)];
  memcpy(b, &t, sizeof t);
  for (size_t i = sizeof(T); i-- > 0;) {
    char x[4];
    snprintf(x, sizeof x, " %02x", b[i]);
    r += x;
  }
  return r;
}

// O: optional; F: type that holds the sentinel; sent: the expected sentinel
template <class O, class F>
void sentinelCase(pbt::Src & s, F const sent, char const * what)
{
  using V = typename O::value_type;
  using P = std::remove_cv_t<V>;
  constexpr bool wrapped = IsWrap<P>::value;
  constexpr bool inPlace = sizeof(O) == sizeof(P);
  constexpr bool asg = std::is_copy_assignable_v<V> && !std::is_volatile_v<V>;
  auto mk = [&](F f, int r) -> P {
    if constexpr (wrapped) {
      return P{static_cast<short>(r), f, r * 3};
    }
    else {
      (void)r;
      return f;
    }
  };
  auto flag = [](V const & p) -> F {
    if constexpr (wrapped) {
      return p.flag;
    }
    else {
      return p;
    }
  };
  int const r1 = static_cast<int>(s.draw(1000)), r2 = static_cast<int>(s.draw(1000));
  F const f1 = Vals<F>::draw(s, sent), f2 = Vals<F>::draw(s, sent);
  P const v1 = mk(f1, r1), v2 = mk(f2, r2);
  s.note("%s: values %s / %s", what, str(f1).c_str(), str(f2).c_str());
  s.nontrivial();
  auto checkIs = [&](O const & o, F const & f, int r, char const * how) {
    PBT_CHECK(o.has_value(), "%s: %s stored by %s is taken for empty", what, str(f).c_str(), how);
    F const got = flag(*o);
    PBT_CHECK(sameBytes(got, f), "%s: %s stored by %s reads back as %s", what, str(f).c_str(), how, str(got).c_str());
    if constexpr (wrapped) {
      PBT_CHECK(o->a == static_cast<short>(r) && o->b == r * 3, "%s: other members changed by %s", what, how);
    }
    (void)r;
  };
  auto checkEmpty = [&](O const & o, char const * how) {
    PBT_CHECK(!o.has_value(), "%s: not empty after %s", what, how);
    if constexpr (inPlace) {
      // The raw bytes of the flag are those of the sentinel.
      F raw;
      size_t off = 0;
      if constexpr (wrapped) {
        static P const probe{};
        off = static_cast<size_t>(reinterpret_cast<char const *>(&probe.flag) - reinterpret_cast<char const *>(&probe));
      }
      memcpy(static_cast<void *>(&raw), reinterpret_cast<char const *>(&o) + off, sizeof raw);
      PBT_CHECK(sameBytes(raw, sent), "%s: an empty optional (%s) holds %s instead of the sentinel %s", what, how, str(raw).c_str(), str(sent).c_str());
    }
  };
  O o;
  checkEmpty(o, "default construction");
  O o1(v1);
  checkIs(o1, f1, r1, "construction");
  O o2(std::in_place, v2);
  checkIs(o2, f2, r2, "in_place construction");
  O o3(o1);
  checkIs(o3, f1, r1, "copy construction");
  O o4(std::move(o3));
  checkIs(o4, f1, r1, "move construction");
  o.emplace(v2);
  checkIs(o, f2, r2, "emplace");
  o.emplace(v1);
  checkIs(o, f1, r1, "emplace on engaged");
  o.reset();
  checkEmpty(o, "reset()");
  O oe(o);
  checkEmpty(oe, "copy of empty");
  if constexpr (asg) {
    o = v2;
    checkIs(o, f2, r2, "assignment to empty");
    o = v1;
    checkIs(o, f1, r1, "assignment to engaged");
    o = o2;
    checkIs(o, f2, r2, "copy assignment");
    o = oe;
    checkEmpty(o, "copy assignment from empty");
    o.swap(o1);
    checkIs(o, f1, r1, "swap");
    checkEmpty(o1, "swap");
    o.swap(o2);
    checkIs(o, f2, r2, "swap of engaged");
    checkIs(o2, f1, r1, "swap of engaged");
    *o = v1;
    checkIs(o, f1, r1, "write through operator*");
    o = std::nullopt;
    checkEmpty(o, "assignment of nullopt");
    if constexpr (inPlace && !wrapped && std::is_scalar_v<P>) {
      // Emptiness is decided by the stored value alone.
      o = v2;
      *o = sent;
      PBT_CHECK(!o.has_value(), "%s: holds the sentinel but is not empty", what);
      o = std::nullopt;
    }
    std::vector<O> vec(2);
    vec.push_back(o2);
    vec.insert(vec.begin(), O(v2));
    checkIs(vec[0], f2, r2, "vector insertion");
    checkEmpty(vec[1], "vector construction");
    checkIs(vec[3], f1, r1, "vector push_back");
  }
}

// All values of a small type.
template <class O, class F>
void exhaustiveSmall(F const sent, char const * what)
{
  if constexpr (sizeof(F) <= 2 && std::is_integral_v<F> && !std::is_same_v<F, bool> && sizeof(O) == sizeof(F) && std::is_copy_assignable_v<typename O::value_type>) {
    using L = std::numeric_limits<F>;
    O re;
    for (long i = L::min(); i <= static_cast<long>(L::max()); ++i) {
      F const v = static_cast<F>(i);
      if (v == sent) {
        continue;
      }
      O o(v);
      re = v;
      PBT_CHECK(o.has_value() && *o == v, "%s: value %ld does not survive construction", what, i);
      PBT_CHECK(re.has_value() && *re == v, "%s: value %ld does not survive assignment", what, i);
    }
  }
}

#define SENT(ID, F, SENTEXPR, ...)                                                                                     \
  static void sentFn##ID(pbt::Src & s)                                                                                 \
  {                                                                                                                    \
    sentinelCase<__VA_ARGS__, F>(s, SENTEXPR, #__VA_ARGS__);                                                           \
  }                                                                                                                    \
  static void sentAll##ID(pbt::Src & s)                                                                                \
  {                                                                                                                    \
    s.nontrivial();                                                                                                    \
    exhaustiveSmall<__VA_ARGS__, F>(SENTEXPR, #__VA_ARGS__);                                                           \
  }                                                                                                                    \
  static pbt::Reg sentReg##ID("sentinel" #ID "/" #__VA_ARGS__, &sentFn##ID);                                           \
  static pbt::Reg sentRegA##ID("exhaustive" #ID "/" #__VA_ARGS__, &sentAll##ID, 0);
