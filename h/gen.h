// Payload value generators. A value is a deterministic function of a Code, so that the same value can be created
// independently for the std::optional and the tiny::optional side (also for types that cannot be moved).
#pragma once
#include "pbt.h"
#include "tracked.h"
#include "tiny/optional.h"
#include <array>
#include <cfloat>
#include <chrono>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>

#ifndef TINY_OPTIONAL_VERSION
  #error "library header not included"
#endif

struct Code
{
  unsigned kind; // 0: small, 1: special, 2: random
  uint64_t bits;
};

inline Code drawCode(pbt::Src & s)
{
  unsigned const w = s.draw(8);
  if (w < 4) {
    return {0, s.draw(6)};
  }
  if (w < 6) {
    return {1, s.draw(64)};
  }
  return {2, s.bits64()};
}

template <class To, class From>
To bitCast(From const & f)
{
  static_assert(sizeof(To) == sizeof(From));
  To t;
  memcpy(&t, &f, sizeof t);
  return t;
}

inline constexpr bool kIs32 = sizeof(void *) == 4;

template <class P, class = void>
struct G;

// ---- integers, characters, enums
template <class P>
struct G<P, std::enable_if_t<std::is_integral_v<P> && !std::is_same_v<P, bool>>>
{
  using U = std::make_unsigned_t<P>;
  static P val(Code c)
  {
    if (c.kind == 0) {
      return static_cast<P>(c.bits);
    }
    if (c.kind == 1) {
      U const tab[] = {
          static_cast<U>(std::numeric_limits<P>::max()),
          static_cast<U>(std::numeric_limits<P>::min()),
          static_cast<U>(-1),
          static_cast<U>(-2),
          static_cast<U>(1),
          static_cast<U>(0x7f),
          static_cast<U>(0x80),
          static_cast<U>(0xff),
          static_cast<U>(0x7fff),
          static_cast<U>(0x8000),
          static_cast<U>(0xffff),
          static_cast<U>(0x7fffffffu),
          static_cast<U>(0x80000000u),
          static_cast<U>(0xffffffffu),
          static_cast<U>(0x100000000ull),
          static_cast<U>(0xfe)};
      U const base = tab[c.bits % 16];
      switch (c.bits / 16 % 4) {
      case 0: return static_cast<P>(base);
      case 1: return static_cast<P>(static_cast<U>(base + 1));
      case 2: return static_cast<P>(static_cast<U>(base - 1));
      default: return static_cast<P>(static_cast<U>(~base));
      }
    }
    return static_cast<P>(static_cast<U>(c.bits));
  }
  static uint64_t obs(P v) { return static_cast<uint64_t>(static_cast<U>(v)); }
};

template <>
struct G<bool>
{
  static bool val(Code c) { return (c.bits & 1) != 0; }
  static uint64_t obs(bool const & v)
  {
    unsigned char b;
    memcpy(&b, &v, 1);
    return b;
  }
};

template <class P>
struct G<P, std::enable_if_t<std::is_enum_v<P>>>
{
  static P val(Code c) { return static_cast<P>(static_cast<std::underlying_type_t<P>>(c.bits % 5)); }
  static uint64_t obs(P v) { return static_cast<uint64_t>(v); }
};

// ---- floating point: any bit pattern, except patterns that the platform itself cannot copy (signaling NaNs on x87).
template <class F, class U>
F floatVal(Code c, U quietBit, U expMask, U mantMask, U docSentinel)
{
  U u;
  if (c.kind == 0) {
    return static_cast<F>(static_cast<double>(c.bits) * 0.5);
  }
#ifdef CONF
  // The same values in every configuration: integer arithmetic only; CONF==2: finite, normal numbers only.
  {
    U const sign = static_cast<U>(static_cast<U>(1) << (sizeof(U) * 8 - 1));
    U const tab[] = {expMask | quietBit, expMask | quietBit | 1, expMask, sign | expMask, 0, sign, 1, mantMask, docSentinel ^ 1, docSentinel ^ quietBit ^ 3, expMask - 1, sign | (expMask - 1)};
    u = c.kind == 1 ? tab[c.bits % 12] : static_cast<U>(c.bits);
    if ((u & expMask) == expMask && (u & mantMask) != 0) {
      u |= quietBit;
    }
    if (CONF == 2 && ((u & expMask) == expMask || (u & expMask) == 0)) {
      u = static_cast<U>((u & ~expMask) | (expMask & (expMask >> 1)));
    }
    if (u == docSentinel) {
      u ^= 1;
    }
    F r;
    memcpy(&r, &u, sizeof r);
    return r;
  }
#endif
  if (c.kind == 1) {
    F const tab[] = {
        std::numeric_limits<F>::quiet_NaN(),
        std::numeric_limits<F>::signaling_NaN(),
        std::numeric_limits<F>::infinity(),
        -std::numeric_limits<F>::infinity(),
        F(0),
        -F(0),
        std::numeric_limits<F>::denorm_min(),
        std::numeric_limits<F>::max(),
        std::numeric_limits<F>::lowest(),
        std::numeric_limits<F>::min(),
        std::numeric_limits<F>::epsilon(),
        F(-1)};
    unsigned const i = c.bits % 24;
    if (i < 12) {
      memcpy(&u, &tab[i], sizeof u);
    }
    else {
      // Neighbours of the documented reserved pattern.
      u = docSentinel ^ (static_cast<U>(1) << ((c.bits * 7 + i) % (sizeof(U) * 8)));
    }
  }
  else {
    u = static_cast<U>(c.bits);
  }
#ifdef __FAST_MATH__
  // The histories also compare values, and the result of comparing a NaN (and, with DAZ, a denormal number) is up to the optimizer's
  // choices here: finite, normal numbers and zeros only. (C02 covers all patterns in -ffast-math builds, by bits.)
  if ((u & expMask) == expMask || ((u & expMask) == 0 && (u & mantMask) != 0)) {
    u = static_cast<U>((u & ~expMask) | (expMask & (expMask >> 1)));
  }
#endif
  if (kIs32 && (u & expMask) == expMask && (u & mantMask) != 0) {
    u |= quietBit;
  }
  if (u == docSentinel) {
    u ^= 1;
  }
  F f;
  memcpy(&f, &u, sizeof f);
  return f;
}

template <>
struct G<double>
{
  static double val(Code c)
  {
    return floatVal<double, uint64_t>(
        c, 0x0008000000000000ull, 0x7ff0000000000000ull, 0x000fffffffffffffull, 0x7ff8fedcba987654ull);
  }
  static uint64_t obs(double const & d)
  {
    uint64_t u;
    memcpy(&u, &d, sizeof u);
    return u;
  }
};

template <>
struct G<float>
{
  static float val(Code c)
  {
    return floatVal<float, uint32_t>(c, 0x00400000u, 0x7f800000u, 0x007fffffu, 0x7fedcba9u);
  }
  static uint64_t obs(float const & d)
  {
    uint32_t u;
    memcpy(&u, &d, sizeof u);
    return u;
  }
};

template <>
struct G<long double>
{
  static long double val(Code c)
  {
#ifdef CONF
    return static_cast<long double>(static_cast<int32_t>(c.bits)) * 0.125L;
#endif
    return c.kind == 0 ? static_cast<long double>(c.bits) : static_cast<long double>(static_cast<int64_t>(c.bits >> 2)) / 3;
  }
  static uint64_t obs(long double const & d)
  {
    uint64_t u;
    memcpy(&u, &d, sizeof u); // mantissa; enough to distinguish the generated values together with the sign/exponent
    uint16_t e;
    memcpy(&e, reinterpret_cast<char const *>(&d) + 8, 2);
    return pbt::mix(u) ^ e;
  }
};

// ---- pointers
inline int gInts[8];
inline std::uintptr_t pointerBits(Code c)
{
  std::uintptr_t const reserved = kIs32 ? static_cast<std::uintptr_t>(0xffffffffu - 8)
                                        : static_cast<std::uintptr_t>(0xffff800000000000ull - 1);
  std::uintptr_t u;
#ifdef CONF
  c = Code{0, c.bits % 8};
#endif
  if (c.kind == 0) {
    u = c.bits == 0 ? 0 : reinterpret_cast<std::uintptr_t>(&gInts[c.bits]);
  }
  else if (c.kind == 1) {
    unsigned const i = static_cast<unsigned>(c.bits % 40);
    if (i < 8) {
      u = static_cast<std::uintptr_t>(0) - 1 - i; // pseudo handles
    }
    else if (i < 16) {
      u = i - 7;
    }
    else if (i < 24) {
      u = reserved + (i - 19);
    }
    else {
      u = reserved ^ (static_cast<std::uintptr_t>(1) << ((c.bits * 5 + i) % (sizeof u * 8)));
    }
  }
  else {
    u = static_cast<std::uintptr_t>(c.bits);
  }
  if (u == reserved) {
    u = reserved - 2;
  }
  return u;
}

template <class T>
struct G<T *>
{
  static T * val(Code c) { return reinterpret_cast<T *>(pointerBits(c)); }
  // Numeric addresses differ between builds: real objects are identified by their index.
  static uint64_t obs(T * p)
  {
    std::uintptr_t const u = reinterpret_cast<std::uintptr_t>(p);
    std::uintptr_t const b = reinterpret_cast<std::uintptr_t>(&gInts[0]);
    if (u >= b && u < b + sizeof gInts) {
      return 0xabcd000000000000ull + (u - b);
    }
    return u;
  }
};

struct MP
{
  int a, b, c;
  int f() const { return a; }
  int g2() const { return b; }
};

template <>
struct G<int MP::*>
{
  static int MP::* val(Code c)
  {
    int MP::* const tab[] = {nullptr, &MP::a, &MP::b, &MP::c};
    return tab[c.bits % 4];
  }
  static uint64_t obs(int MP::* p) { return p == nullptr ? 0 : p == &MP::a ? 1 : p == &MP::b ? 2 : 3; }
};

using MFP = int (MP::*)() const;
template <>
struct G<MFP>
{
  static MFP val(Code c)
  {
    MFP const tab[] = {nullptr, &MP::f, &MP::g2};
    return tab[c.bits % 3];
  }
  static uint64_t obs(MFP p) { return p == nullptr ? 0 : p == &MP::f ? 1 : 2; }
};

// ---- classes
template <>
struct G<std::string>
{
  static std::string val(Code c)
  {
    if (c.kind == 0) {
      return std::string(static_cast<size_t>(c.bits), 'a');
    }
    return std::string(static_cast<size_t>(c.bits % 60), static_cast<char>('b' + c.bits % 7)) + std::to_string(c.bits);
  }
  static uint64_t obs(std::string const & s) { return pbt::hashStr(s.c_str()) ^ s.size(); }
};

template <>
struct G<std::vector<int>>
{
  static std::vector<int> val(Code c)
  {
    return std::vector<int>(static_cast<size_t>(c.bits % 9), static_cast<int>(c.bits));
  }
  static uint64_t obs(std::vector<int> const & v)
  {
    uint64_t h = v.size();
    for (int e : v) {
      h = pbt::mix(h ^ static_cast<uint32_t>(e));
    }
    return h;
  }
};

template <>
struct G<std::unique_ptr<int>>
{
  static std::unique_ptr<int> val(Code c)
  {
    return c.bits == 3 ? nullptr : std::make_unique<int>(static_cast<int>(c.bits));
  }
  static uint64_t obs(std::unique_ptr<int> const & p) { return p ? 1 + static_cast<uint32_t>(*p) : 0; }
};

template <>
struct G<std::shared_ptr<int>>
{
  static std::shared_ptr<int> val(Code c) { return std::make_shared<int>(static_cast<int>(c.bits)); }
  static uint64_t obs(std::shared_ptr<int> const & p)
  {
#ifdef THREADS // another thread may be holding a copy right now
    return p ? 1 + static_cast<uint32_t>(*p) : 0;
#else
    return p ? 1 + static_cast<uint32_t>(*p) + (static_cast<uint64_t>(p.use_count()) << 40) : 0;
#endif
  }
};

template <>
struct G<std::chrono::microseconds>
{
  static std::chrono::microseconds val(Code c)
  {
    return std::chrono::microseconds(static_cast<std::chrono::microseconds::rep>(c.bits & 0x7fffffffffffull));
  }
  static uint64_t obs(std::chrono::microseconds const & v) { return static_cast<uint64_t>(v.count()); }
};

struct Pod
{
  char c;
  double d;
  int i;
  bool b;
  Pod * p;
  float f;
  friend bool operator==(Pod const & l, Pod const & r) noexcept { return l.c == r.c && l.i == r.i && l.b == r.b; }
};
struct EmptyStruct
{
  friend bool operator==(EmptyStruct, EmptyStruct) noexcept { return true; }
};
struct Big
{
  unsigned char a[211];
};
struct alignas(64) Over
{
  int x;
  char y;
  double flag;
};
struct Base1
{
  int b1 = 1;
  virtual ~Base1() = default;
};
// Polymorphic, with a base class, a reference-like const member and an array.
struct Derived : Base1
{
  explicit Derived(int x) noexcept
    : m(x)
    , flagPtr(&gInts[x & 7])
  {
    arr[0] = static_cast<char>(x);
    arr[4] = static_cast<char>(x >> 8);
  }
  int m;
  char arr[5] = {0, 1, 2, 3, 4};
  int const * flagPtr;
  double flagD = 0.25;
  bool flagB = true;
};

template <>
struct G<Pod>
{
  static Pod val(Code c)
  {
    Pod p{};
    p.c = G<char>::val(c);
    p.d = G<double>::val(c);
    p.i = G<int>::val(c);
    p.b = (c.bits & 2) != 0;
    p.p = G<Pod *>::val(c);
    p.f = G<float>::val(c);
    return p;
  }
  static uint64_t obs(Pod const & p)
  {
    uint64_t h = G<char>::obs(p.c);
    h = pbt::mix(h ^ G<double>::obs(p.d));
    h = pbt::mix(h ^ G<int>::obs(p.i));
    h = pbt::mix(h ^ G<bool>::obs(p.b));
    h = pbt::mix(h ^ G<Pod *>::obs(p.p));
    return pbt::mix(h ^ G<float>::obs(p.f));
  }
};

template <>
struct G<EmptyStruct>
{
  static EmptyStruct val(Code) { return {}; }
  static uint64_t obs(EmptyStruct const &) { return 1; }
};

template <>
struct G<Big>
{
  static Big val(Code c)
  {
    Big b;
    for (unsigned i = 0; i < sizeof b.a; ++i) {
      b.a[i] = static_cast<unsigned char>(pbt::mix(c.bits + i));
    }
    return b;
  }
  static uint64_t obs(Big const & b)
  {
    uint64_t h = 0;
    for (unsigned char x : b.a) {
      h = h * 31 + x;
    }
    return h;
  }
};

template <>
struct G<Over>
{
  static Over val(Code c) { return Over{G<int>::val(c), G<char>::val(c), G<double>::val(c)}; }
  static uint64_t obs(Over const & o)
  {
    return pbt::mix(G<int>::obs(o.x)) ^ (G<char>::obs(o.y) << 3) ^ pbt::mix(7 + G<double>::obs(o.flag));
  }
};

template <>
struct G<Derived>
{
  static Derived val(Code c)
  {
    Derived d(G<int>::val(c));
    d.flagD = G<double>::val(c);
    d.flagB = (c.bits & 4) != 0;
    return d;
  }
  static uint64_t obs(Derived const & d)
  {
    uint64_t h = static_cast<uint32_t>(d.m) + static_cast<uint64_t>(d.b1);
    for (char ch : d.arr) {
      h = h * 131 + static_cast<unsigned char>(ch);
    }
    h = pbt::mix(h ^ G<int const *>::obs(d.flagPtr));
    h = pbt::mix(h ^ G<double>::obs(d.flagD));
    return h ^ G<bool>::obs(d.flagB);
  }
};

// Overloaded operator&, operator, and class specific operator new, in a namespace whose function templates are better matches for any
// unqualified call with such an argument than the functions of the library.
namespace evilns
{
#define EVIL_FN(name)                                                                                                  \
  template <class... A>                                                                                                \
  void name(A &&...) = delete;
EVIL_FN(move)
EVIL_FN(forward)
EVIL_FN(addressof)
EVIL_FN(invoke)
EVIL_FN(construct_at)
EVIL_FN(destroy_at)
EVIL_FN(launder)
EVIL_FN(as_const)
EVIL_FN(exchange)
EVIL_FN(move_if_noexcept)
EVIL_FN(make_optional)
EVIL_FN(is_empty)
EVIL_FN(init_empty_flag)
EVIL_FN(invalidate_empty_flag)
EVIL_FN(memcpy)
EVIL_FN(memcmp)
struct Evil
{
  int v;
  constexpr explicit Evil(int x) noexcept
    : v(x)
  {
  }
  Evil * operator&() = delete;
  Evil const * operator&() const = delete;
  template <class T>
  void operator,(T &&) const = delete;
  static void * operator new(std::size_t) = delete;
  static void * operator new(std::size_t, void *) = delete;
  static void operator delete(void *) = delete;
  friend constexpr bool operator==(Evil const & a, Evil const & b) noexcept { return a.v == b.v; }
};
} // namespace evilns
using evilns::Evil;
template <>
struct G<Evil>
{
  static Evil val(Code c) { return Evil(G<int>::val(c)); }
  static uint64_t obs(Evil const & e) { return static_cast<uint32_t>(e.v); }
};

struct Greedy
{
  int v;
  int how;
  Greedy() noexcept
    : v(0)
    , how(0)
  {
  }
  Greedy(Greedy const & o) noexcept
    : v(o.v)
    , how(1)
  {
  }
  Greedy(Greedy && o) noexcept
    : v(o.v)
    , how(2)
  {
  }
  Greedy & operator=(Greedy const & o) noexcept
  {
    v = o.v;
    how = 3;
    return *this;
  }
  Greedy & operator=(Greedy && o) noexcept
  {
    v = o.v;
    how = 4;
    return *this;
  }
  Greedy(int x) noexcept
    : v(x)
    , how(5)
  {
  }
};
template <>
struct G<Greedy>
{
  static Greedy val(Code c) { return Greedy(G<int>::val(c)); }
  static uint64_t obs(Greedy const & e) { return static_cast<uint32_t>(e.v) + (static_cast<uint64_t>(e.how) << 33); }
};

// ---- tracked
template <class T>
struct G<T, std::enable_if_t<std::is_same_v<decltype(std::declval<T &>().self), void const *>>>
{
  static constexpr bool tracked = true;
  static int arg(Code c) { return static_cast<int>(c.bits % 900000); }
  static T val(Code c) { return T(arg(c)); }
  static uint64_t obs(T const & t)
  {
    t.checkUse("read");
    return static_cast<uint32_t>(t.v);
  }
};

// ---- nested optionals
template <class T>
struct NestedG
{
  using V = typename T::value_type;
  static T val(Code c)
  {
    if (c.kind == 0 && c.bits == 2) {
      return T();
    }
    return T(std::in_place, G<std::remove_cv_t<V>>::val(c));
  }
  static uint64_t obs(T const & t) { return t.has_value() ? pbt::mix(G<std::remove_cv_t<V>>::obs(*t)) : 0x77; }
};
template <class P, auto a, auto b>
struct G<tiny::optional<P, a, b>> : NestedG<tiny::optional<P, a, b>>
{
};
template <class P>
struct G<std::optional<P>> : NestedG<std::optional<P>>
{
};

template <class P, class = void>
inline constexpr bool isTracked = false;
template <class P>
inline constexpr bool isTracked<P, std::enable_if_t<G<P>::tracked>> = true;
