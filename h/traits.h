// C11: trait by trait comparison of an optional O with std::optional S of the same payload.
#pragma once
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <memory>
#include <optional>
#include <string>
#include <tiny/optional.h>
#include <type_traits>
#include <utility>
#include <vector>

struct RawS { int x; void f(int); };
struct A0 {};
struct A1 {};
struct A2 {};
struct A3 {};
enum PlainEnum { pe0, pe1 };
enum class ScopedEnum : short { a, b };
struct Incomplete;
using FnPtr = int (*)(A0);
using MemObjPtr = int RawS::*;
using MemFnPtr = void (RawS::*)(int);

template <class T>
struct RawManip
{
  static bool is_empty(T const & t) noexcept { return t.flagI == -1; }
  static void init_empty_flag(T & t) noexcept { ::new (const_cast<void *>(static_cast<void const volatile *>(std::addressof(t.flagI)))) int(-1); }
  static void invalidate_empty_flag(T & t) noexcept { const_cast<int &>(t.flagI) = 0; }
};
struct SentMinus1
{
  static constexpr int value = -1;
};
template <class T>
struct tiny::optional_flag_manipulator<T, std::enable_if_t<(sizeof(typename T::custom_flag) > 0)>> : RawManip<T>
{
};

template <class T>
struct ConvTo
{
  operator T() const;
};
template <class T>
struct ExplConvTo
{
  explicit operator T() const;
};

// An implicit conversion that std::optional also has via its converting constructors from other optionals cannot be
// expected, so no optional types appear as arguments here.
template <class O, class S, class T>
struct TraitCmp
{
  bool ok = true;
  void req(bool a, bool b, char const * what)
  {
    if (a != b) {
      ok = false;
      std::printf("  %s: std::optional %d, tiny %d\n", what, b, a);
    }
  }
  template <class U>
  void arg(char const * n)
  {
    one(std::is_constructible_v<O, U>, std::is_constructible_v<S, U>, "constructible from ", n);
    one(std::is_convertible_v<U, O>, std::is_convertible_v<U, S>, "convertible from ", n);
    one(std::is_assignable_v<O &, U>, std::is_assignable_v<S &, U>, "assignable from ", n);
    one(std::is_constructible_v<O, std::in_place_t, U>, std::is_constructible_v<S, std::in_place_t, U>, "in_place constructible from ", n);
    one(std::is_constructible_v<O, std::in_place_t const &, U>, std::is_constructible_v<S, std::in_place_t const &, U>, "in_place& constructible from ", n);
  }
  void one(bool a, bool b, char const * w, char const * n)
  {
    if (a != b) {
      ok = false;
      std::printf("  %s%s: std::optional %d, tiny %d\n", w, n, b, a);
    }
  }
  template <class X, class F, class = void>
  struct HasOrElse : std::false_type {};
  template <class X, class F>
  struct HasOrElse<X, F, std::void_t<decltype(std::declval<X>().or_else(std::declval<F>()))>> : std::true_type {};

  template <class X, class = void>
  struct BracesAsg : std::false_type {};
  template <class X>
  struct BracesAsg<X, std::void_t<decltype(std::declval<X &>() = {})>> : std::true_type {};
  template <class X, class U, class = void>
  struct ListAsg : std::false_type {};
  template <class X, class U>
  struct ListAsg<X, U, std::void_t<decltype(std::declval<X &>() = {std::declval<U>()})>> : std::true_type {};
  template <class X, class U>
  static constexpr bool asgType()
  {
    if constexpr (std::is_assignable_v<X &, U>) {
      return std::is_same_v<decltype(std::declval<X &>() = std::declval<U>()), X &>;
    }
    else {
      return true;
    }
  }

  void run()
  {
    req(BracesAsg<O>::value, BracesAsg<S>::value, "assignable from {}");
    if constexpr (BracesAsg<O>::value && BracesAsg<S>::value && std::is_scalar_v<T>) {
      O o;
      o = {};
      req(o.has_value(), false, "engaged after o = {}");
    }
    req(ListAsg<O, T>::value, ListAsg<S, T>::value, "assignable from {T}");
    req(ListAsg<O, T const &>::value, ListAsg<S, T const &>::value, "assignable from {T const&}");
    req(ListAsg<O, A0>::value, ListAsg<S, A0>::value, "assignable from {A0}");
    req(ListAsg<O, int>::value, ListAsg<S, int>::value, "assignable from {int}");
    req(asgType<O, O const &>() && asgType<O, O>() && asgType<O, T>() && asgType<O, T const &>() && asgType<O, std::nullopt_t>() && asgType<O, int>() && asgType<O, A0>(), true,
        "every assignment returns the optional");
    req(std::is_same_v<decltype(std::declval<O &>().reset()), void>, true, "type of reset");
    req(std::is_same_v<decltype(std::declval<O const &>().has_value()), bool>, true, "type of has_value");
    if constexpr (std::is_default_constructible_v<T>) {
      req(std::is_same_v<decltype(std::declval<O &>().emplace()), T &>, true, "type of emplace");
    }
    if constexpr (std::is_copy_constructible_v<T> && std::is_convertible_v<T, T>) {
      req(std::is_same_v<decltype(std::declval<O const &>().value_or(std::declval<T>())), std::remove_cv_t<T>>, true, "type of value_or");
    }
    {
      using CO = O const &;
#define NULLCMP(op) (noexcept(std::declval<CO>() op std::nullopt) && noexcept(std::nullopt op std::declval<CO>()))
      req(NULLCMP(==) && NULLCMP(!=) && NULLCMP(<) && NULLCMP(<=) && NULLCMP(>) && NULLCMP(>=), true, "noexcept comparison with nullopt");
#if __cplusplus > 201703L
      req(NULLCMP(<=>), true, "noexcept three-way comparison with nullopt");
#endif
#undef NULLCMP
    }
    req(noexcept(static_cast<bool>(std::declval<O const &>())), true, "noexcept bool");
    req(std::is_default_constructible_v<O>, std::is_default_constructible_v<S>, "is_default_constructible");
    req(std::is_nothrow_default_constructible_v<O>, std::is_nothrow_default_constructible_v<S>, "is_nothrow_default_constructible");
    req(std::is_copy_constructible_v<O>, std::is_copy_constructible_v<S>, "is_copy_constructible");
    req(std::is_move_constructible_v<O>, std::is_move_constructible_v<S>, "is_move_constructible");
    // (Otherwise the copy operations are used, which are noexcept only if trivial; triviality is not offered.)
    if constexpr (std::is_move_constructible_v<T>) {
      req(std::is_nothrow_move_constructible_v<O>, std::is_nothrow_move_constructible_v<S>, "is_nothrow_move_constructible");
    }
    req(std::is_constructible_v<O, O &>, std::is_constructible_v<S, S &>, "constructible from a non-const lvalue of itself");
    req(std::is_constructible_v<O, O const &&>, std::is_constructible_v<S, S const &&>, "constructible from a const rvalue of itself");
    req(std::is_convertible_v<O &, O>, std::is_convertible_v<S &, S>, "convertible from an lvalue of itself");
    req(std::is_convertible_v<O, O>, std::is_convertible_v<S, S>, "convertible from an rvalue of itself");
    req(std::is_copy_assignable_v<O>, std::is_copy_assignable_v<S>, "is_copy_assignable");
    req(std::is_move_assignable_v<O>, std::is_move_assignable_v<S>, "is_move_assignable");
    if constexpr (std::is_move_constructible_v<T> && std::is_move_assignable_v<T>) {
      req(std::is_nothrow_move_assignable_v<O>, std::is_nothrow_move_assignable_v<S>, "is_nothrow_move_assignable");
    }
    req(std::is_assignable_v<O &, O &>, std::is_assignable_v<S &, S &>, "assignable from a non-const lvalue of itself");
    req(std::is_assignable_v<O &, O const &&>, std::is_assignable_v<S &, S const &&>, "assignable from a const rvalue of itself");
    req(std::is_assignable_v<O const &, O const &>, std::is_assignable_v<S const &, S const &>, "const optional assignable");
    req(std::is_assignable_v<O const &, T const &>, std::is_assignable_v<S const &, T const &>, "const optional assignable from a value");
    // Where optional's own swap is not enabled but the optional can be moved, the standard leaves it to the generic std::swap
    // (libstdc++ deletes it).
    if constexpr ((std::is_move_constructible_v<T> && std::is_swappable_v<T>) || !(std::is_move_constructible_v<S> && std::is_move_assignable_v<S>)) {
      req(std::is_swappable_v<O>, std::is_swappable_v<S>, "is_swappable");
      req(std::is_nothrow_swappable_v<O>, std::is_nothrow_swappable_v<S>, "is_nothrow_swappable");
    }
    if constexpr (std::is_move_constructible_v<T> && std::is_swappable_v<T>) {
      req(noexcept(std::declval<O &>().swap(std::declval<O &>())), noexcept(std::declval<S &>().swap(std::declval<S &>())), "noexcept(swap)");
    }
    req(std::is_default_constructible_v<std::hash<O>>, std::is_default_constructible_v<std::hash<S>>, "hash enabled");
    req(std::is_copy_constructible_v<std::hash<O>>, std::is_copy_constructible_v<std::hash<S>>, "hash copyable");
    // nullopt
    req(std::is_constructible_v<O, std::nullopt_t>, true, "constructible from nullopt");
    req(std::is_nothrow_constructible_v<O, std::nullopt_t>, true, "nothrow constructible from nullopt");
    req(std::is_convertible_v<std::nullopt_t, O>, true, "convertible from nullopt");
    req(std::is_assignable_v<O &, std::nullopt_t>, true, "assignable from nullopt");
    req(std::is_nothrow_assignable_v<O &, std::nullopt_t>, true, "nothrow assignable from nullopt");
    req(std::is_nothrow_destructible_v<O>, std::is_nothrow_destructible_v<S>, "nothrow destructible");
    req(noexcept(std::declval<O &>().reset()), true, "noexcept reset");
    req(noexcept(std::declval<O const &>().has_value()), true, "noexcept has_value");
    req(std::is_constructible_v<bool, O const &>, true, "explicit bool");
    req(std::is_convertible_v<O const &, bool>, false, "implicit bool");
    req(std::is_convertible_v<O, int>, false, "implicit int");
    // in_place
    req(std::is_constructible_v<O, std::in_place_t>, std::is_constructible_v<S, std::in_place_t>, "in_place default");
    req(std::is_convertible_v<std::in_place_t, O>, std::is_convertible_v<std::in_place_t, S>, "convertible from in_place");
    req(std::is_assignable_v<O &, std::in_place_t>, std::is_assignable_v<S &, std::in_place_t>, "assignable from in_place");
    req(std::is_constructible_v<O, std::in_place_t, A0, A1>, std::is_constructible_v<S, std::in_place_t, A0, A1>, "in_place two arguments");
    req(std::is_constructible_v<O, std::in_place_t, A0 &, int>, std::is_constructible_v<S, std::in_place_t, A0 &, int>, "in_place two arguments (2)");
    req(std::is_constructible_v<O, A0, A1>, std::is_constructible_v<S, A0, A1>, "two arguments without in_place");
    req(std::is_constructible_v<O, std::in_place_t, std::initializer_list<int>>, std::is_constructible_v<S, std::in_place_t, std::initializer_list<int>>, "initializer_list");
    req(std::is_constructible_v<O, std::in_place_t, std::initializer_list<int>, A2>, std::is_constructible_v<S, std::in_place_t, std::initializer_list<int>, A2>, "initializer_list + argument");
    req(std::is_constructible_v<O, std::in_place_t, std::initializer_list<A3>>, std::is_constructible_v<S, std::in_place_t, std::initializer_list<A3>>, "initializer_list of another type");
    req(std::is_constructible_v<O, std::initializer_list<int>>, std::is_constructible_v<S, std::initializer_list<int>>, "initializer_list without in_place");
    // values
    arg<T>("T");
    arg<T &>("T&");
    arg<T const &>("T const&");
    arg<T const>("T const&&");
    arg<A0>("A0");
    arg<A0 &>("A0&");
    arg<A0 const &>("A0 const&");
    arg<A0 const>("A0 const&&");
    arg<A1>("A1");
    arg<A1 &>("A1&");
    arg<A1 const &>("A1 const&");
    arg<A2>("A2");
    arg<A2 const &>("A2 const&");
    arg<A3>("A3");
    arg<int>("int");
    arg<int &>("int&");
    arg<double>("double");
    arg<char const *>("char const*");
    arg<std::nullptr_t>("nullptr_t");
    arg<std::string>("string");
    arg<void *>("void*");
    arg<bool>("bool");
    arg<ConvTo<std::remove_cv_t<T>>>("convertible-to-T");
    arg<ExplConvTo<std::remove_cv_t<T>>>("explicitly-convertible-to-T");
    arg<std::remove_cv_t<T> *>("T*");
    // accessors
    req(std::is_same_v<decltype(*std::declval<O &>()), decltype(*std::declval<S &>())>, true, "type of * &");
    req(std::is_same_v<decltype(*std::declval<O const &>()), decltype(*std::declval<S const &>())>, true, "type of * const&");
    req(std::is_same_v<decltype(*std::declval<O>()), decltype(*std::declval<S>())>, true, "type of * &&");
    req(std::is_same_v<decltype(*std::declval<O const>()), decltype(*std::declval<S const>())>, true, "type of * const&&");
    req(std::is_same_v<decltype(std::declval<O &>().value()), decltype(std::declval<S &>().value())>, true, "type of value &");
    req(std::is_same_v<decltype(std::declval<O const &>().value()), decltype(std::declval<S const &>().value())>, true, "type of value const&");
    req(std::is_same_v<decltype(std::declval<O>().value()), decltype(std::declval<S>().value())>, true, "type of value &&");
    req(std::is_same_v<decltype(std::declval<O const>().value()), decltype(std::declval<S const>().value())>, true, "type of value const&&");
    req(std::is_same_v<decltype(std::declval<O &>().operator->()), decltype(std::declval<S &>().operator->())>, true, "type of ->");
    req(std::is_same_v<decltype(std::declval<O const &>().operator->()), decltype(std::declval<S const &>().operator->())>, true, "type of -> const");
    req(std::is_same_v<typename O::value_type, typename S::value_type>, true, "value_type");
    req(noexcept(*std::declval<O &>()), true, "noexcept *");
    req(noexcept(std::declval<O &>().operator->()), true, "noexcept ->");
#if defined(__cpp_lib_optional) && __cpp_lib_optional >= 202110L
    if constexpr (OrElse) {
      using FO = O (*)();
      using FS = S (*)();
      req(HasOrElse<O &, FO>::value, HasOrElse<S &, FS>::value, "or_else &");
      req(HasOrElse<O const &, FO>::value, HasOrElse<S const &, FS>::value, "or_else const&");
      req(HasOrElse<O, FO>::value, HasOrElse<S, FS>::value, "or_else &&");
      req(HasOrElse<O const, FO>::value, HasOrElse<S const, FS>::value, "or_else const&&");
      req(HasOrElse<O &, int>::value, HasOrElse<S &, int>::value, "or_else with something that is no function");
    }
#endif
  }
#ifndef OR_ELSE_ALL
  // only tiny::optional has or_else
  template <class X>
  struct IsMain : std::false_type {};
  template <class P, auto a, auto b>
  struct IsMain<tiny::optional<P, a, b>> : std::true_type {};
  static constexpr bool OrElse = IsMain<O>::value;
#endif
};

template <class O, class T>
bool traitsSame()
{
  TraitCmp<O, std::optional<T>, T> c;
  c.run();
  return c.ok;
}
