// One unit (shared library) of the interoperability check; UNIT is its name.
#include "interop.h"
#include <cstdint>
#include <limits>
#include <memory>
#include <new>
#include <string>
#include <tiny/optional.h>
#include <type_traits>

struct Big
{
  char c;
  double d;
  int i;
  void * p;
  bool b;
  float f;
};
struct Txt
{
  std::string s;
  unsigned short u;
  bool flag;
};
enum class En : short
{
  a,
  z = 1000
};
struct Pair
{
  int a, b;
};
template <>
struct tiny::optional_flag_manipulator<Pair>
{
  static bool is_empty(Pair const & p) noexcept { return p.a == -5 && p.b == -6; }
  static void init_empty_flag(Pair & p) noexcept { ::new (&p) Pair{-5, -6}; }
  static void invalidate_empty_flag(Pair & p) noexcept { p.~Pair(); }
};
struct StrMan
{
  static bool is_empty(std::string const & s) noexcept { return s == "<>"; }
  static void init_empty_flag(std::string & s) noexcept { ::new (&s) std::string("<>"); }
  static void invalidate_empty_flag(std::string & s) noexcept { s.~basic_string(); }
};
struct HoldPair
{
  short x;
  Pair pr;
};
struct S42
{
  static constexpr int value = 42000;
};
struct alignas(64) Over
{
  int v;
  bool b;
};
inline int fns[4096];
inline int fn0(int x) { return x; }

template <class P>
struct Cd // values 0..999
{
  static P enc(long v) { return static_cast<P>(v); }
  static long dec(P const & p) { return static_cast<long>(p); }
};
template <>
struct Cd<bool>
{
  static bool enc(long v) { return v & 1; }
  static long dec(bool p) { return p; }
};
template <>
struct Cd<double>
{
  static double enc(long v) { return static_cast<double>(v) / 8; }
  static long dec(double p) { return static_cast<long>(p * 8); }
};
template <>
struct Cd<float>
{
  static float enc(long v) { return static_cast<float>(v) / 8; }
  static long dec(float p) { return static_cast<long>(p * 8); }
};
template <>
struct Cd<char *>
{
  static char * enc(long v) { return reinterpret_cast<char *>(static_cast<std::intptr_t>(v * 4096 + 3)); }
  static long dec(char * p) { return static_cast<long>((reinterpret_cast<std::intptr_t>(p) - 3) / 4096); }
};
using Fp = int (*)(int);
template <>
struct Cd<Fp>
{
  static Fp enc(long v) { return reinterpret_cast<Fp>(static_cast<std::intptr_t>(v * 4096)); }
  static long dec(Fp p) { return static_cast<long>(reinterpret_cast<std::intptr_t>(p) / 4096); }
};
template <>
struct Cd<std::string>
{
  static std::string enc(long v) { return std::to_string(v + 1000) + (v % 3 ? "" : std::string(40, 'x')); }
  static long dec(std::string const & p) { return std::stol(p) - 1000; }
};
template <>
struct Cd<Big>
{
  static Big enc(long v) { return Big{static_cast<char>(v % 100), static_cast<double>(v), static_cast<int>(v), reinterpret_cast<void *>(static_cast<std::intptr_t>(v * 8)), v % 2 != 0, static_cast<float>(v)}; }
  static long dec(Big const & p)
  {
    long const v = p.i;
    return p.c == v % 100 && p.d == static_cast<double>(v) && p.p == reinterpret_cast<void *>(static_cast<std::intptr_t>(v * 8)) && p.b == (v % 2 != 0) && p.f == static_cast<float>(v) ? v : -2;
  }
};
template <>
struct Cd<Txt>
{
  static Txt enc(long v) { return Txt{Cd<std::string>::enc(v), static_cast<unsigned short>(v), v % 2 == 1}; }
  static long dec(Txt const & p) { return Cd<std::string>::dec(p.s) == p.u && p.flag == (p.u % 2 == 1) ? p.u : -2; }
};
template <>
struct Cd<Pair>
{
  static Pair enc(long v) { return Pair{static_cast<int>(v), static_cast<int>(v) + 1}; }
  static long dec(Pair const & p) { return p.b == p.a + 1 ? p.a : -2; }
};
template <>
struct Cd<HoldPair>
{
  static HoldPair enc(long v) { return HoldPair{static_cast<short>(v), Cd<Pair>::enc(v)}; }
  static long dec(HoldPair const & p) { return p.x == p.pr.a ? p.x : -2; }
};
template <>
struct Cd<Over>
{
  static Over enc(long v) { return Over{static_cast<int>(v), v % 2 == 0}; }
  static long dec(Over const & p) { return p.b == (p.v % 2 == 0) ? p.v : -2; }
};
template <>
struct Cd<tiny::optional<int>>
{
  static tiny::optional<int> enc(long v) { return v == 0 ? tiny::optional<int>() : tiny::optional<int>(static_cast<int>(v)); }
  static long dec(tiny::optional<int> const & p) { return p ? *p : 0; }
};

template <class T>
T through(T t) // by value in and out
{
  T u = t;
  return u;
}

template <class T, class P>
struct K
{
  static T & o(void * p) { return *static_cast<T *>(p); }
  static T const & o(void const * p) { return *static_cast<T const *>(p); }
  static void make(void * at) { ::new (at) T(); }
  static void makeNull(void * at) { ::new (at) T(std::nullopt); }
  static void makeValue(void * at, long v) { ::new (at) T(Cd<P>::enc(v)); }
  static void makeInPlace(void * at, long v) { ::new (at) T(std::in_place, Cd<P>::enc(v)); }
  static void makeCopy(void * at, void const * f) { ::new (at) T(o(f)); }
  static void makeMove(void * at, void * f) { ::new (at) T(std::move(o(f))); }
  static void destroy(void * at) { o(at).~T(); }
  static void assign(void * at, long v) { o(at) = Cd<P>::enc(v); }
  static void assignNull(void * at) { o(at) = std::nullopt; }
  static void reset(void * at) { o(at).reset(); }
  static void emplace(void * at, long v) { o(at).emplace(Cd<P>::enc(v)); }
  static void copy(void * at, void const * f) { o(at) = o(f); }
  static void move(void * at, void * f) { o(at) = std::move(o(f)); }
  static void swap(void * a, void * b) { o(a).swap(o(b)); }
  static void write(void * at, long v) { *o(at) = Cd<P>::enc(v); }
  static bool has(void const * at) { return o(at).has_value(); }
  static long get(void const * at) { return Cd<P>::dec(o(at).value()); }
  static long valueOr(void const * at, long v) { return Cd<P>::dec(o(at).value_or(Cd<P>::enc(v))); }
  static long payloadOffset(void const * at) { return static_cast<long>(reinterpret_cast<char const *>(std::addressof(*o(at))) - static_cast<char const *>(at)); }
  template <class X>
  static auto eqTest(int) -> decltype(std::declval<X const &>() < std::declval<X const &>(), std::declval<X const &>() == std::declval<X const &>(), std::true_type{});
  template <class X>
  static std::false_type eqTest(...);
  static int equal(void const * a, void const * b)
  {
    if constexpr (decltype(eqTest<P>(0))::value) {
      return o(a) == o(b);
    }
    else {
      return -1;
    }
  }
  static int less(void const * a, void const * b)
  {
    if constexpr (decltype(eqTest<P>(0))::value) {
      return o(a) < o(b);
    }
    else {
      return -1;
    }
  }
  static std::size_t hash(void const * a)
  {
    if constexpr (std::is_default_constructible_v<std::hash<P>>) {
      return std::hash<T>()(o(a));
    }
    else {
      return 0;
    }
  }
  static long transform(void const * a)
  {
    auto r = o(a).transform([](auto const & p) { return Cd<P>::dec(p) + 1; });
    return r ? *r : -1;
  }
  static long byValue(void const * a)
  {
    T t = through(o(a));
    return t ? Cd<P>::dec(*t) : -1;
  }
  static Ops table(char const * n)
  {
    return {n, sizeof(T), alignof(T), T::is_compressed, make, makeNull, makeValue, makeInPlace, makeCopy, makeMove, destroy, assign, assignNull, reset, emplace, copy, move, swap,
            write, has, get, valueOr, payloadOffset, equal, less, hash, transform, byValue};
  }
};

#define KIND(P, ...) K<__VA_ARGS__, P>::table(#__VA_ARGS__),
static Ops const gOps[] = {
    // clang-format off
    KIND(int, tiny::optional<int>)
    KIND(bool, tiny::optional<bool>)
    KIND(double, tiny::optional<double>)
    KIND(float, tiny::optional<float>)
    KIND(char *, tiny::optional<char *>)
    KIND(Fp, tiny::optional<Fp>)
    KIND(std::string, tiny::optional<std::string>)
    KIND(En, tiny::optional<En>)
    KIND(int, tiny::optional<int, -1>)
    KIND(En, tiny::optional<En, En::z>)
    KIND(Pair, tiny::optional<Pair>)
    KIND(HoldPair, tiny::optional<HoldPair, &HoldPair::pr>)
    KIND(std::string, tiny::optional_inplace<std::string, StrMan>)
    KIND(int, tiny::optional_sentinel_via_type<int, S42>)
    KIND(unsigned short, tiny::optional_aip<unsigned short>)
    KIND(long long, tiny::optional_aip<long long>)
    KIND(Txt, tiny::optional<Txt, &Txt::u, 65535>)
    KIND(Big, tiny::optional<Big>)
    KIND(Over, tiny::optional<Over, &Over::v, -1>)
    KIND(tiny::optional<int>, tiny::optional<tiny::optional<int>>)
#if !defined(NOBITMEM) // members with unused bits: rejected when only the unused bits are off
    KIND(Big, tiny::optional<Big, &Big::d>)
    KIND(Big, tiny::optional<Big, &Big::p>)
    KIND(Big, tiny::optional<Big, &Big::f>)
    KIND(Big, tiny::optional<Big, &Big::b>)
    KIND(Txt, tiny::optional<Txt, &Txt::flag>)
    KIND(Over, tiny::optional<Over, &Over::b>)
#endif
    // clang-format on
};
#define CAT(a, b) a##b
#define CAT2(a, b) CAT(a, b)
extern "C" __attribute__((visibility("default"))) Ops const * CAT2(ops_, UNIT)(unsigned * n)
{
  *n = sizeof gOps / sizeof *gOps;
  return gOps;
}
