// Construction routes: the same arguments given to a tiny optional and to std::optional by every route.
#pragma once
#include <tiny/optional.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <utility>
#include <vector>

namespace rt
{
struct Log
{
  struct E
  {
    int what;
    long v;
    bool operator==(E const & o) const { return what == o.what && v == o.v; }
  };
  std::vector<E> e;
};
inline Log L;
inline void log(int what, long v) { L.e.push_back({what, v}); }

struct Make
{
};
struct Other
{
  explicit Other(Make, long s)
    : v(s)
  {
  }
  Other(Other const &) = default;
  long v;
  mutable long touched = 0;
};
struct Unrelated
{
  explicit Unrelated(Make, long s)
    : v(s)
  {
  }
  long v;
};

// Fresh objects for an argument type.
template <class T>
struct Mk
{
  T obj;
  explicit Mk(long s)
    : obj(Make{}, s)
  {
  }
  long state() const { return obj.v; }
};
template <>
struct Mk<int>
{
  int obj;
  explicit Mk(long s)
    : obj(static_cast<int>(s))
  {
  }
  long state() const { return obj; }
};
template <>
struct Mk<bool>
{
  bool obj;
  explicit Mk(long s)
    : obj((s & 1) != 0)
  {
  }
  long state() const { return obj; }
};
template <>
struct Mk<double>
{
  double obj;
  explicit Mk(long s)
    : obj(static_cast<double>(s) + 0.5)
  {
  }
  long state() const { return static_cast<long>(obj * 2); }
};
template <>
struct Mk<char const *>
{
  char const * obj;
  explicit Mk(long s)
    : obj(s & 1 ? "one" : "zero!")
  {
  }
  long state() const { return static_cast<long>(std::strlen(obj)); }
};
template <>
struct Mk<std::nullopt_t>
{
  std::nullopt_t obj = std::nullopt;
  explicit Mk(long) {}
  long state() const { return 0; }
};
template <>
struct Mk<std::in_place_t>
{
  std::in_place_t obj{};
  explicit Mk(long) {}
  long state() const { return 0; }
};
template <>
struct Mk<std::nullptr_t>
{
  std::nullptr_t obj = nullptr;
  explicit Mk(long) {}
  long state() const { return 0; }
};
template <>
struct Mk<std::string>
{
  std::string obj;
  explicit Mk(long s)
    : obj(static_cast<size_t>(s % 40), 's')
  {
  }
  long state() const { return static_cast<long>(obj.size()); }
};
template <>
struct Mk<std::vector<int>>
{
  std::vector<int> obj;
  explicit Mk(long s)
    : obj(static_cast<size_t>(s % 40), 3)
  {
  }
  long state() const { return static_cast<long>(obj.size()); }
};

template <class A>
using Bare = std::remove_cv_t<std::remove_reference_t<A>>;

// What is seen of a payload.
template <class P>
long see(P const & p)
{
  return p.how * 100000 + p.v;
}
inline long see(int const & p) { return p; }
inline long see(bool const & p) { return p; }
inline long see(double const & p) { return static_cast<long>(p * 4); }
inline long see(char const * const & p) { return p ? static_cast<long>(std::strlen(p)) : -1; }
inline long see(std::string const & p) { return static_cast<long>(p.size() * 256 + (p.empty() ? 0 : static_cast<unsigned char>(p[0]))); }
inline long see(std::vector<int> const & p)
{
  long r = static_cast<long>(p.size());
  for (int x : p) {
    r = r * 31 + x;
  }
  return r;
}
template <class O>
long seeOpt(O const & o)
{
  return o.has_value() ? see(*o) : -999999;
}

template <class O>
void takes(O);

// ---------------------------------------------------------------- routes. valid<O, A...>, run<O>(f, args...)
#define ROUTE(NAME, TEST, RUN)                                                                                         \
  struct NAME                                                                                                          \
  {                                                                                                                    \
    static constexpr char const * name = #NAME;                                                                        \
    template <class O, class... A>                                                                                     \
    static auto test(int) -> decltype(TEST, std::true_type{});                                                         \
    template <class O, class... A>                                                                                     \
    static std::false_type test(...);                                                                                  \
    template <class O, class F, class... A>                                                                            \
    static void run(F f, A &&... a)                                                                                    \
    {                                                                                                                  \
      RUN                                                                                                              \
    }                                                                                                                  \
  };
ROUTE(Direct, O(std::declval<A>()...), { O o(std::forward<A>(a)...); f(o); })
ROUTE(Brace, O{std::declval<A>()...}, { O o{std::forward<A>(a)...}; f(o); })
ROUTE(CopyBrace, takes<O>({std::declval<A>()...}), { O o = {std::forward<A>(a)...}; f(o); })
struct Copy
{
  static constexpr char const * name = "Copy";
  template <class O, class A>
  static auto test(int) -> std::integral_constant<bool, std::is_convertible_v<A, O>>;
  template <class O, class... A>
  static std::false_type test(...);
  template <class O, class F, class A>
  static void run(F f, A && a)
  {
    O o = std::forward<A>(a);
    f(o);
  }
};
// (Both are unconstrained in std::optional or tiny: the payload decides.)
struct InPlace
{
  static constexpr char const * name = "InPlace";
  template <class O, class... A>
  static std::bool_constant<std::is_constructible_v<O, std::in_place_t, A...>> test(int);
  template <class O, class F, class... A>
  static void run(F f, A &&... a)
  {
    O o(std::in_place, std::forward<A>(a)...);
    f(o);
  }
};
struct InPlaceBrace
{
  static constexpr char const * name = "InPlaceBrace";
  template <class O, class... A>
  static auto test(int) -> decltype(O{std::in_place, std::declval<A>()...}, std::true_type{});
  template <class O, class... A>
  static std::false_type test(...);
  template <class O, class F, class... A>
  static void run(F f, A &&... a)
  {
    O o{std::in_place, std::forward<A>(a)...};
    f(o);
  }
};
struct InPlaceIl
{
  static constexpr char const * name = "InPlaceIl";
  template <class O, class... A>
  static std::bool_constant<std::is_constructible_v<O, std::in_place_t, std::initializer_list<int> &, A...>> test(int);
  template <class O, class F, class... A>
  static void run(F f, A &&... a)
  {
    O o(std::in_place, {4, 5, 6}, std::forward<A>(a)...);
    f(o);
  }
};
struct EmplaceIl
{
  static constexpr char const * name = "EmplaceIl";
  template <class O, class... A>
  static std::bool_constant<std::is_constructible_v<typename O::value_type, std::initializer_list<int> &, A...>> test(int);
  template <class O, class F, class... A>
  static void run(F f, A &&... a)
  {
    O o;
    auto & r = o.emplace({4, 5, 6}, std::forward<A>(a)...);
    f(o);
    log(1000, std::addressof(r) == std::addressof(*o));
  }
};
struct Emplace
{
  static constexpr char const * name = "Emplace";
  template <class O, class... A>
  static std::bool_constant<std::is_constructible_v<typename O::value_type, A...>> test(int);
  template <class O, class F, class... A>
  static void run(F f, A &&... a)
  {
    O o;
    auto & r = o.emplace(std::forward<A>(a)...);
    f(o);
    log(1000, std::addressof(r) == std::addressof(*o));
  }
};
struct EmplaceEngaged : Emplace
{
  static constexpr char const * name = "EmplaceEngaged";
  template <class O, class... A>
  static std::bool_constant<std::is_constructible_v<typename O::value_type, A...> && std::is_constructible_v<typename O::value_type, Make, long>> test(int);
  template <class O, class F, class... A>
  static void run(F f, A &&... a)
  {
    O o(std::in_place, Make{}, 5l);
    o.emplace(std::forward<A>(a)...);
    f(o);
  }
};
ROUTE(AssignEmpty, (std::declval<O &>() = std::declval<A...>()), {
  O o;
  auto & r = (o = (std::forward<A>(a), ...));
  f(o);
  log(1001, &r == &o);
})
struct AssignEngaged
{
  static constexpr char const * name = "AssignEngaged";
  template <class O, class A>
  static auto test(int) -> decltype((std::declval<O &>() = std::declval<A>()), std::bool_constant<std::is_constructible_v<typename O::value_type, Make, long>>{});
  template <class O, class... A>
  static std::false_type test(...);
  template <class O, class F, class A>
  static void run(F f, A && a)
  {
    O o(std::in_place, Make{}, 5l);
    o = std::forward<A>(a);
    f(o);
  }
};
ROUTE(AssignBrace, (std::declval<O &>() = {std::declval<A>()...}), {
  O o;
  o = {std::forward<A>(a)...};
  f(o);
})
struct FnArg
{
  static constexpr char const * name = "FnArg";
  template <class O, class A>
  static auto test(int) -> decltype(takes<O>(std::declval<A>()), std::true_type{});
  template <class O, class... A>
  static std::false_type test(...);
  template <class O, class F, class A>
  static void run(F f, A && a)
  {
    [&](O o) { f(o); }(std::forward<A>(a));
  }
};
struct Return
{
  static constexpr char const * name = "Return";
  template <class O, class A>
  static std::bool_constant<std::is_convertible_v<A, O>> test(int);
  template <class O, class... A>
  static std::false_type test(...);
  template <class O, class F, class A>
  static void run(F f, A && a)
  {
    O o = [&]() -> O { return std::forward<A>(a); }();
    f(o);
  }
};
struct StaticCast
{
  static constexpr char const * name = "StaticCast";
  template <class O, class A>
  static auto test(int) -> decltype(static_cast<O>(std::declval<A>()), std::true_type{});
  template <class O, class... A>
  static std::false_type test(...);
  template <class O, class F, class A>
  static void run(F f, A && a)
  {
    O o = static_cast<O>(std::forward<A>(a));
    f(o);
  }
};
struct Aggregate
{
  static constexpr char const * name = "Aggregate";
  template <class O>
  struct Agg
  {
    int i;
    O o;
  };
  template <class O, class A>
  static std::bool_constant<std::is_convertible_v<A, O>> test(int);
  template <class O, class... A>
  static std::false_type test(...);
  template <class O, class F, class A>
  static void run(F f, A && a)
  {
    Agg<O> x{1, std::forward<A>(a)};
    f(x.o);
  }
};
// make_optional: the library decides the type.
template <class O>
struct MakeFor;
template <class P>
struct MakeFor<std::optional<P>>
{
  template <class... A>
  static std::optional<P> args(A &&... a)
  {
    return std::make_optional<P>(std::forward<A>(a)...);
  }
  template <class... A>
  static std::optional<P> il(A &&... a)
  {
    return std::make_optional<P>({4, 5, 6}, std::forward<A>(a)...);
  }
};
template <class P>
struct MakeFor<tiny::optional<P>>
{
  template <class... A>
  static tiny::optional<P> args(A &&... a)
  {
    static_assert(std::is_same_v<decltype(tiny::make_optional<P>(std::forward<A>(a)...)), tiny::optional<P>>);
    return tiny::make_optional<P>(std::forward<A>(a)...);
  }
  template <class... A>
  static tiny::optional<P> il(A &&... a)
  {
    return tiny::make_optional<P>({4, 5, 6}, std::forward<A>(a)...);
  }
};
template <class P, auto m>
struct MakeFor<tiny::optional<P, m>>
{
  template <class... A>
  static tiny::optional<P, m> args(A &&... a)
  {
    static_assert(std::is_same_v<decltype(tiny::make_optional<P, m>(std::forward<A>(a)...)), tiny::optional<P, m>>);
    return tiny::make_optional<P, m>(std::forward<A>(a)...);
  }
  template <class... A>
  static tiny::optional<P, m> il(A &&... a)
  {
    return tiny::make_optional<P, m>({4, 5, 6}, std::forward<A>(a)...);
  }
};
template <class P, auto m, auto s>
struct MakeFor<tiny::optional<P, m, s>>
{
  template <class... A>
  static tiny::optional<P, m, s> args(A &&... a)
  {
    static_assert(std::is_same_v<decltype(tiny::make_optional<P, m, s>(std::forward<A>(a)...)), tiny::optional<P, m, s>>);
    return tiny::make_optional<P, m, s>(std::forward<A>(a)...);
  }
  template <class... A>
  static tiny::optional<P, m, s> il(A &&... a)
  {
    return tiny::make_optional<P, m, s>({4, 5, 6}, std::forward<A>(a)...);
  }
};
template <class O, class = void>
inline constexpr bool hasMake = false;
template <class O>
inline constexpr bool hasMake<O, std::void_t<decltype(sizeof(MakeFor<O>))>> = true;

struct MakeArgs
{
  static constexpr char const * name = "make_optional<T>(args)";
  template <class O, class... A>
  static std::bool_constant<std::is_constructible_v<typename O::value_type, A...>> test(int);
  template <class O, class F, class... A>
  static void run(F f, A &&... a)
  {
    O o = MakeFor<O>::args(std::forward<A>(a)...);
    f(o);
  }
};
struct MakeIl
{
  static constexpr char const * name = "make_optional<T>(il, args)";
  template <class O, class... A>
  static std::bool_constant<std::is_constructible_v<typename O::value_type, std::initializer_list<int> &, A...>> test(int);
  template <class O, class F, class... A>
  static void run(F f, A &&... a)
  {
    O o = MakeFor<O>::il(std::forward<A>(a)...);
    f(o);
  }
};

inline bool gShow = false;

// Up to two argument objects, made in place (they need not be movable).
template <class... M>
struct Objs;
template <>
struct Objs<>
{
  explicit Objs(long) { }
  template <class F>
  void apply(F f)
  {
    f();
  }
};
template <class M>
struct Objs<M>
{
  M a;
  explicit Objs(long s) : a(s) { }
  template <class F>
  void apply(F f)
  {
    f(a);
  }
};
template <class M, class N>
struct Objs<M, N>
{
  M a;
  N b;
  explicit Objs(long s) : a(s), b(s) { }
  template <class F>
  void apply(F f)
  {
    f(a, b);
  }
};

template <class R, class O, class... A>
void one(long seed, std::vector<Log::E> & events, long & seen, std::vector<long> & after)
{
  Objs<Mk<Bare<A>>...> objs(seed);
  L.e.clear();
  seen = -1;
  objs.apply([&](auto &... m) { R::template run<O>([&](auto & o) { seen = seeOpt(o); }, static_cast<A &&>(m.obj)...); });
  events = L.e;
  objs.apply([&](auto &... m) { (after.push_back(m.state()), ...); });
}

inline unsigned long gValid = 0, gInvalid = 0;

// The same route with the same arguments.
template <class R, class T, class S, class... A>
bool route(long seed)
{
  constexpr bool vt = decltype(R::template test<T, A...>(0))::value;
  constexpr bool vs = decltype(R::template test<S, A...>(0))::value;
  if constexpr (vt != vs) {
    std::printf("%s is %s, but %s for std::optional\n", R::name, vt ? "accepted" : "rejected", vs ? "accepted" : "rejected");
    return false;
  }
  else if constexpr (vt) {
    ++gValid;
    std::vector<Log::E> et, es;
    long st = 0, ss = 0;
    std::vector<long> at, as;
    one<R, S, A...>(seed, es, ss, as);
    one<R, T, A...>(seed, et, st, at);
    if (et != es || st != ss || at != as) {
      std::printf("%s: tiny::optional ends as %ld", R::name, st);
      for (auto & e : et) {
        std::printf(" [%d %ld]", e.what, e.v);
      }
      std::printf(", std::optional as %ld", ss);
      for (auto & e : es) {
        std::printf(" [%d %ld]", e.what, e.v);
      }
      std::printf(" arguments afterwards");
      for (std::size_t i = 0; i < at.size(); ++i) {
        std::printf(" %ld/%ld", at[i], as[i]);
      }
      std::printf("\n");
      return false;
    }
  }
  else {
    ++gInvalid;
  }
  return true;
}

template <class T, class S, class... A>
bool multi(long seed)
{
  bool ok = true;
  ok = route<InPlace, T, S, A...>(seed) && ok;
  ok = route<InPlaceBrace, T, S, A...>(seed) && ok;
  ok = route<InPlaceIl, T, S, A...>(seed) && ok;
  ok = route<Emplace, T, S, A...>(seed) && ok;
  ok = route<EmplaceEngaged, T, S, A...>(seed) && ok;
  ok = route<EmplaceIl, T, S, A...>(seed) && ok;
  if constexpr (hasMake<T>) {
    ok = route<MakeArgs, T, S, A...>(seed) && ok;
    ok = route<MakeIl, T, S, A...>(seed) && ok;
  }
  return ok;
}

template <class T, class S, class A>
bool single(long seed)
{
  bool ok = multi<T, S, A>(seed);
  ok = route<Direct, T, S, A>(seed) && ok;
  ok = route<Brace, T, S, A>(seed) && ok;
  ok = route<CopyBrace, T, S, A>(seed) && ok;
  ok = route<Copy, T, S, A>(seed) && ok;
  ok = route<AssignEmpty, T, S, A>(seed) && ok;
  ok = route<AssignEngaged, T, S, A>(seed) && ok;
  ok = route<AssignBrace, T, S, A>(seed) && ok;
  ok = route<FnArg, T, S, A>(seed) && ok;
  ok = route<Return, T, S, A>(seed) && ok;
  ok = route<StaticCast, T, S, A>(seed) && ok;
  ok = route<Aggregate, T, S, A>(seed) && ok;
  return ok;
}

// No arguments at all, and lists.
template <class T, class S>
bool nothing(long seed)
{
  bool ok = multi<T, S>(seed);
  ok = route<Direct, T, S>(seed) && ok;
  ok = route<Brace, T, S>(seed) && ok;
  ok = route<CopyBrace, T, S>(seed) && ok;
  ok = route<AssignBrace, T, S>(seed) && ok;
  return ok;
}
template <class T, class S, class A, class B>
bool two(long seed)
{
  bool ok = multi<T, S, A, B>(seed);
  ok = route<Direct, T, S, A, B>(seed) && ok;
  ok = route<Brace, T, S, A, B>(seed) && ok;
  ok = route<CopyBrace, T, S, A, B>(seed) && ok;
  ok = route<AssignBrace, T, S, A, B>(seed) && ok;
  return ok;
}

// ---------------------------------------------------------------- make_optional(v) and the deduction guide
template <class V>
bool deduces(long seed)
{
  bool ok = true;
  Mk<Bare<V>> a(seed), b(seed);
  using D = std::decay_t<V>;
  if constexpr (std::is_constructible_v<D, V>) {
    L.e.clear();
    auto s = std::make_optional(static_cast<V &&>(b.obj));
    std::vector<Log::E> es = L.e;
    L.e.clear();
    auto t = tiny::make_optional(static_cast<V &&>(a.obj));
    ok = L.e == es && std::is_same_v<decltype(t), tiny::optional<D>> && std::is_same_v<decltype(s), std::optional<D>> && seeOpt(s) == seeOpt(t)
         && a.state() == b.state() && ok;
    if (!ok) {
      std::printf("make_optional(v) differs\n");
    }
    Mk<Bare<V>> c(seed), d(seed), e(seed), f(seed);
    L.e.clear();
    std::optional s2(static_cast<V &&>(c.obj));
    es = L.e;
    L.e.clear();
    tiny::optional t2(static_cast<V &&>(d.obj));
    bool ok2 = L.e == es && std::is_same_v<decltype(t2), tiny::optional<typename decltype(s2)::value_type>> && seeOpt(s2) == seeOpt(t2) && c.state() == d.state();
    L.e.clear();
    std::optional s3{static_cast<V &&>(e.obj)};
    es = L.e;
    L.e.clear();
    tiny::optional t3{static_cast<V &&>(f.obj)};
    ok2 = ok2 && L.e == es && std::is_same_v<decltype(t3), tiny::optional<typename decltype(s3)::value_type>> && seeOpt(s3) == seeOpt(t3) && e.state() == f.state();
    if (!ok2) {
      std::printf("deduction differs\n");
    }
    ok = ok && ok2;
  }
  return ok;
}
} // namespace rt
