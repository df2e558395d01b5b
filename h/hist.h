// Stateful model-based histories: the same generated sequence of operations is applied to tiny optionals and to
// std::optionals, and all observations are compared after every step.
#pragma once
#include "modes.h"
#include <functional>

template <class T>
inline constexpr bool isTiny = tiny::is_tiny_optional_v<std::remove_cv_t<std::remove_reference_t<T>>>;

#if defined(__cpp_lib_optional) && __cpp_lib_optional >= 202110L
inline constexpr bool kStdHasMonadics = true;
#else
inline constexpr bool kStdHasMonadics = false;
#endif

// The standard's definition of the monadic operations, for library versions whose std::optional lacks them.
template <class Opt, class F>
auto doAndThen(Opt && o, F && f)
{
#if defined(__cpp_lib_optional) && __cpp_lib_optional >= 202110L
  return std::forward<Opt>(o).and_then(std::forward<F>(f));
#else
  if constexpr (isTiny<Opt>) {
    return std::forward<Opt>(o).and_then(std::forward<F>(f));
  }
  else {
    using R = std::remove_cv_t<std::remove_reference_t<decltype(std::invoke(std::forward<F>(f), *std::forward<Opt>(o)))>>;
    if (o.has_value()) {
      return std::invoke(std::forward<F>(f), *std::forward<Opt>(o));
    }
    return R();
  }
#endif
}

// What std::optional::transform() returns in C++23 (the payload is initialised directly with the result of the callback).
template <class R>
struct Slot
{
  alignas(R) unsigned char raw[sizeof(R)];
  bool has;
  template <class F>
  Slot(bool engaged, F && f)
    : has(engaged)
  {
    if (engaged) {
      ::new (static_cast<void *>(raw)) R(f());
    }
  }
  Slot(Slot const &) = delete;
  ~Slot()
  {
    if (has) {
      (**this).~R();
    }
  }
  bool has_value() const { return has; }
  R & operator*() { return *std::launder(reinterpret_cast<R *>(raw)); }
  R const & operator*() const { return *std::launder(reinterpret_cast<R const *>(raw)); }
};

// The result of transform: a payload of type R, so that both sides can be observed.
template <class Opt, class F>
auto doTransform(Opt && o, F && f)
{
#if defined(__cpp_lib_optional) && __cpp_lib_optional >= 202110L
  return std::forward<Opt>(o).transform(std::forward<F>(f));
#else
  if constexpr (isTiny<Opt>) {
    return std::forward<Opt>(o).transform(std::forward<F>(f));
  }
  else {
    using R = std::remove_cv_t<decltype(std::invoke(std::forward<F>(f), *std::forward<Opt>(o)))>;
    return Slot<R>(o.has_value(), [&]() -> R { return std::invoke(std::forward<F>(f), *std::forward<Opt>(o)); });
  }
#endif
}

template <class Opt, class F>
std::remove_cv_t<std::remove_reference_t<Opt>> doOrElse(Opt && o, F && f)
{
#if __cplusplus >= 202002L
  if constexpr (isTiny<Opt> || kStdHasMonadics) {
    return std::forward<Opt>(o).or_else(std::forward<F>(f));
  }
  else
#endif
  {
    return o.has_value() ? std::forward<Opt>(o) : std::forward<F>(f)();
  }
}

template <class T, class = void>
inline constexpr bool hasEq = false;
template <class T>
inline constexpr bool hasEq<T, std::void_t<decltype(std::declval<T const &>() == std::declval<T const &>())>> = true;
template <class T, class = void>
inline constexpr bool hasLess = false;
template <class T>
inline constexpr bool
    hasLess<T, std::void_t<decltype(std::declval<T const &>() < std::declval<T const &>()), decltype(std::declval<T const &>() <= std::declval<T const &>()), decltype(std::declval<T const &>() > std::declval<T const &>()), decltype(std::declval<T const &>() >= std::declval<T const &>()), decltype(std::declval<T const &>() != std::declval<T const &>())>>
    = true;

// The order of addresses from different allocations is not reproducible.
template <>
inline constexpr bool hasLess<std::unique_ptr<int>> = false;
template <>
inline constexpr bool hasLess<std::shared_ptr<int>> = false;

template <class T, class = void>
struct IsNested : std::bool_constant<isTiny<T>>
{
};
template <class T>
struct IsNested<std::optional<T>> : std::true_type
{
};

enum OpKind : unsigned
{
  opDefault,
  opNulloptCtor,
  opCopyCtor,
  opMoveCtor,
  opValueCtor,
  opInPlace,
  opIlCtor,
  opCopyAsg,
  opMoveAsg,
  opValueAsg,
  opArgAsg,
  opBraceAsg,
  opNulloptAsg,
  opReset,
  opEmplace,
  opEmplaceIl,
  opSwap,
  opModify,
  opValueOr,
  opValue,
  opMoveOut,
  opCompare,
  opAndThen,
  opTransform,
  opOrElse,
  opAliasAsg,
  opMake,
  opReturn,
  opCount
};
inline char const * const opNames[] = {
    "default-construct", "construct-nullopt", "copy-construct", "move-construct", "construct-value", "construct-in_place",
    "construct-il",      "copy-assign",       "move-assign",    "assign-value",   "assign-arg",      "assign-{}",
    "assign-nullopt",    "reset",             "emplace",        "emplace-il",     "swap",            "modify",
    "value_or",          "value",             "move-out",       "compare",        "and_then",        "transform",
    "or_else",           "assign-aliased",    "make/return",    "swap-via-temp"};
static_assert(sizeof opNames / sizeof opNames[0] == opCount);

struct OpRec
{
  unsigned op, i, j, variant;
  Code c1, c2;
  unsigned fault;
};

struct Res
{
  uint64_t v[48];
  unsigned n = 0;
  void add(uint64_t x)
  {
    if (n < 48) {
      v[n++] = x;
    }
  }
};

template <class P>
decltype(auto) plain(P & p)
{
  // Removes volatile (the generators copy scalars only in that case).
  return const_cast<std::remove_volatile_t<P> &>(p);
}

template <class M>
uint64_t obsP(typename M::P const & p)
{
  return G<typename M::V>::obs(const_cast<typename M::V const &>(p));
}

template <class M, class Opt>
uint64_t obsOpt(Opt const & o)
{
  return o.has_value() ? pbt::mix(obsP<M>(*o)) | 1 : 0;
}

inline uint64_t obsT(double d)
{
  return static_cast<uint64_t>(d);
}
inline uint64_t obsT(trk::Full const & f)
{
  return G<trk::Full>::obs(f);
}

template <class M>
auto argOf(Code c)
{
  if constexpr (isTracked<typename M::V>) {
    return G<typename M::V>::arg(c);
  }
  else {
    return G<typename M::V>::val(c);
  }
}

constexpr unsigned kSlots = 3;
constexpr uint64_t kCanary = 0xc0ffee1234567890ull;

template <class M, class Opt>
struct Side
{
  using P = typename M::P;
  using V = typename M::V;
  static constexpr bool CC = std::is_copy_constructible_v<P>;
  static constexpr bool MC = std::is_move_constructible_v<P>;
  static constexpr bool CA = CC && std::is_copy_assignable_v<P>;
  static constexpr bool MA = MC && std::is_move_assignable_v<P>;
  static constexpr bool SW = MC && std::is_swappable_v<P>;
  static constexpr bool Scalar = std::is_scalar_v<V>;
  static constexpr bool Trk = isTracked<V>;

  struct Cell
  {
    uint64_t before[4];
    alignas(Opt) unsigned char raw[sizeof(Opt)];
    uint64_t after[4];
  };
  Cell cells[kSlots];

  Opt & at(unsigned i) { return *std::launder(reinterpret_cast<Opt *>(cells[i].raw)); }
  Opt const & cat(unsigned i) { return at(i); }

  // Constructs in slot i; the previous object is destroyed first. If construction throws the slot becomes empty.
  template <class F>
  void rebuild(unsigned i, F && f)
  {
    at(i).~Opt();
    memset(cells[i].raw, 0xa5, sizeof cells[i].raw);
    try {
      f(static_cast<void *>(cells[i].raw));
    }
    catch (...) {
      ::new (static_cast<void *>(cells[i].raw)) Opt();
      throw;
    }
  }

  void init()
  {
    for (auto & c : cells) {
      memset(c.raw, 0x5a, sizeof c.raw);
      for (auto & x : c.before) {
        x = kCanary;
      }
      for (auto & x : c.after) {
        x = ~kCanary;
      }
      ::new (static_cast<void *>(c.raw)) Opt();
    }
  }

  void checkCanaries(char const * what)
  {
    for (auto & c : cells) {
      for (auto x : c.before) {
        PBT_CHECK(x == kCanary, "memory before the optional was overwritten by %s", what);
      }
      for (auto x : c.after) {
        PBT_CHECK(x == ~kCanary, "memory behind the optional was overwritten by %s", what);
      }
    }
  }

  void destroyAll()
  {
    for (unsigned i = 0; i < kSlots; ++i) {
      at(i).~Opt();
    }
  }

  static Opt byValue(Opt o) { return o; }

  // Returns false if the operation does not exist for this payload.
  bool exec(OpRec const & r, Res & out)
  {
    using GV = G<V>;
    unsigned const i = r.i, j = r.j;
    switch (r.op) {
    case opDefault:
      rebuild(i, [&](void * m) {
        if (r.variant & 1) {
          ::new (m) Opt{};
        }
        else {
          ::new (m) Opt();
        }
      });
      return true;
    case opNulloptCtor: rebuild(i, [&](void * m) { ::new (m) Opt(std::nullopt); }); return true;
    case opCopyCtor:
      if constexpr (CC) {
        if (i == j) {
          return false;
        }
        rebuild(i, [&](void * m) {
          switch (r.variant % 3) {
          case 0: ::new (m) Opt(cat(j)); break;
          case 1: ::new (m) Opt(at(j)); break;
          default: ::new (m) Opt(std::move(cat(j))); break;
          }
        });
        return true;
      }
      return false;
    case opMoveCtor:
      if constexpr (MC) {
        if (i == j) {
          return false;
        }
        rebuild(i, [&](void * m) { ::new (m) Opt(std::move(at(j))); });
        return true;
      }
      return false;
    case opValueCtor:
      if constexpr (MC) {
        rebuild(i, [&](void * m) {
          switch (r.variant % 4) {
          case 0: ::new (m) Opt(GV::val(r.c1)); break;
          case 1:
            if constexpr (CC) {
              V const v = GV::val(r.c1);
              ::new (m) Opt(v);
              break;
            }
            [[fallthrough]];
          case 2: {
            V v = GV::val(r.c1);
            if constexpr (CC) {
              ::new (m) Opt(v);
            }
            else {
              ::new (m) Opt(std::move(v));
            }
            break;
          }
          default: {
            V v = GV::val(r.c1);
            Opt o = std::move(v);
            ::new (m) Opt(std::move(o));
            break;
          }
          }
        });
        return true;
      }
      return false;
    case opInPlace:
      rebuild(i, [&](void * m) {
        if constexpr (Trk) {
          if (r.variant & 1) {
            if (r.variant & 2) {
              ::new (m) Opt(std::in_place, GV::arg(r.c1), 3, 4);
            }
            else {
              ::new (m) Opt(std::in_place, GV::arg(r.c1), 3);
            }
            return;
          }
        }
        ::new (m) Opt(std::in_place, argOf<M>(r.c1));
      });
      return true;
    case opIlCtor:
      if constexpr (Trk) {
        rebuild(i, [&](void * m) {
          ::new (m) Opt(std::in_place, {GV::arg(r.c1) % 1000, 5, 6}, GV::arg(r.c2) % 1000);
        });
        return true;
      }
      return false;
    case opCopyAsg:
      if constexpr (CA) {
        Opt & ret = (r.variant & 1) ? (at(i) = at(j)) : (at(i) = cat(j));
        out.add(&ret == &at(i));
        return true;
      }
      return false;
    case opMoveAsg:
      if constexpr (MA) {
        if (i == j && !(Scalar || Trk)) {
          return false; // self-move of standard library types leaves an unspecified value
        }
        Opt & ret = (at(i) = std::move(at(j)));
        out.add(&ret == &at(i));
        return true;
      }
      return false;
    case opValueAsg:
      if constexpr (MA) {
        switch (r.variant % 4) {
        case 0: out.add(&(at(i) = GV::val(r.c1)) == &at(i)); break;
        case 1: {
          V v = GV::val(r.c1);
          out.add(&(at(i) = std::move(v)) == &at(i));
          out.add(GV::obs(v));
          break;
        }
        case 2: {
          V v = GV::val(r.c1);
          if constexpr (CA) {
            out.add(&(at(i) = v) == &at(i));
          }
          else {
            out.add(&(at(i) = std::move(v)) == &at(i));
          }
          out.add(GV::obs(v));
          break;
        }
        default: {
          V const v = GV::val(r.c1);
          if constexpr (CA) {
            out.add(&(at(i) = v) == &at(i));
          }
          out.add(GV::obs(v));
          break;
        }
        }
        return true;
      }
      return false;
    case opArgAsg:
      if constexpr (Trk && std::is_assignable_v<P &, int>) {
        int const a = GV::arg(r.c1);
        out.add(&(at(i) = a) == &at(i));
        return true;
      }
      else if constexpr (std::is_same_v<P, double>) {
        at(i) = 5;
        return true;
      }
      else if constexpr (std::is_same_v<P, std::string>) {
        at(i) = "text";
        return true;
      }
      return false;
    case opBraceAsg:
      if constexpr (MA && Scalar && !std::is_const_v<P> && !std::is_volatile_v<P>) {
        at(i) = {};
        return true;
      }
      return false;
    case opNulloptAsg: {
      Opt & ret = (at(i) = std::nullopt);
      out.add(&ret == &at(i));
      return true;
    }
    case opReset:
      at(i).reset();
      if (r.variant & 1) {
        at(i).reset();
      }
      return true;
    case opEmplace: {
      if constexpr (Trk) {
        if (r.variant % 6 == 1) {
          P & p = at(i).emplace(GV::arg(r.c1), 9);
          out.add(std::addressof(p) == std::addressof(*at(i)));
          return true;
        }
        if (r.variant % 6 == 2) {
          P & p = at(i).emplace();
          out.add(std::addressof(p) == std::addressof(*at(i)));
          return true;
        }
        if (r.variant % 6 == 3) {
          int const a = GV::arg(r.c1);
          P & p = r.variant == 3 ? at(i).emplace(a, 4, 5) : at(i).emplace(a, 4, 5, 6);
          out.add(std::addressof(p) == std::addressof(*at(i)));
          return true;
        }
      }
      if constexpr (CC) {
        if (r.variant % 6 == 4 && i != j && at(j)) {
          P & p = (r.variant & 1) ? at(i).emplace(*at(j)) : at(i).emplace(*cat(j));
          out.add(std::addressof(p) == std::addressof(*at(i)));
          out.add(obsP<M>(p));
          return true;
        }
      }
      if constexpr (MC) {
        if (r.variant % 6 == 5 && i != j && at(j)) {
          P & p = at(i).emplace(*std::move(at(j)));
          out.add(std::addressof(p) == std::addressof(*at(i)));
          out.add(obsP<M>(p));
          return true;
        }
      }
      P & p = at(i).emplace(argOf<M>(r.c1));
      out.add(std::addressof(p) == std::addressof(*at(i)));
      out.add(obsP<M>(p));
      return true;
    }
    case opEmplaceIl:
      if constexpr (Trk) {
        P & p = at(i).emplace({GV::arg(r.c1) % 1000, 8}, GV::arg(r.c2) % 1000);
        out.add(std::addressof(p) == std::addressof(*at(i)));
        return true;
      }
      else if constexpr (std::is_same_v<P, std::vector<int>>) {
        at(i).emplace({static_cast<int>(r.c1.bits), 2, 3});
        return true;
      }
      return false;
    case opSwap:
      if constexpr (SW) {
        if (i == j && !(Scalar || Trk)) {
          return false;
        }
        switch (r.variant % 3) {
        case 0: at(i).swap(at(j)); break;
        case 1: {
          using std::swap;
          swap(at(i), at(j));
          break;
        }
        default: at(j).swap(at(i)); break;
        }
        return true;
      }
      return false;
    case opModify:
      if constexpr (!std::is_const_v<P>) {
        if (!at(i).has_value()) {
          return false;
        }
        if constexpr (Trk) {
          switch (r.variant % 3) {
          case 0: (*at(i)).v = GV::arg(r.c1); break;
          case 1: at(i)->v = GV::arg(r.c1); break;
          default: at(i).value().v = GV::arg(r.c1); break;
          }
          return true;
        }
        else if constexpr (MA) {
          switch (r.variant % 3) {
          case 0: *at(i) = GV::val(r.c1); break;
          case 1: *at(i).operator->() = GV::val(r.c1); break;
          default: at(i).value() = GV::val(r.c1); break;
          }
          return true;
        }
      }
      return false;
    case opValueOr:
      if constexpr (CC) {
        switch (r.variant % 4) {
        case 0: out.add(GV::obs(cat(i).value_or(GV::val(r.c1)))); return true;
        case 1: {
          V d = GV::val(r.c1);
          out.add(GV::obs(at(i).value_or(d)));
          out.add(GV::obs(d));
          return true;
        }
        case 2:
          if constexpr (Trk) {
            out.add(GV::obs(cat(i).value_or(GV::arg(r.c1))));
            return true;
          }
          [[fallthrough]];
        default: break;
        }
      }
      if constexpr (MC) {
        if (!std::is_const_v<P> && !(Scalar || Trk || CC)) {
          return false;
        }
        V d = GV::val(r.c1);
        out.add(GV::obs(std::move(at(i)).value_or(std::move(d))));
        out.add(GV::obs(d));
        return true;
      }
      return false;
    case opValue:
      try {
        switch (r.variant % 4) {
        case 0: out.add(obsP<M>(at(i).value())); break;
        case 1: out.add(obsP<M>(cat(i).value())); break;
        case 2: {
          auto && x = std::move(at(i)).value();
          out.add(obsP<M>(x));
          break;
        }
        default: {
          auto && x = std::move(cat(i)).value();
          out.add(obsP<M>(x));
          break;
        }
        }
      }
      catch (std::bad_optional_access const &) {
        out.add(0xbad0);
      }
      return true;
    case opMoveOut:
      if constexpr (MC) {
        if (!at(i).has_value()) {
          return false;
        }
        switch (r.variant % 2) {
        case 0: {
          V v(*std::move(at(i)));
          out.add(GV::obs(v));
          break;
        }
        default: {
          V v(std::move(at(i)).value());
          out.add(GV::obs(v));
          break;
        }
        }
        return true;
      }
      return false;
    case opCompare:
      if constexpr (hasEq<P>) {
        out.add(cat(i) == cat(j));
        // (For a payload that is itself an optional, a comparison of std::optional with nullopt on the left picks, depending
        // on the compiler, the overload for values: not usable as an oracle.)
        if constexpr (!IsNested<V>::value) {
          out.add(cat(i) == std::nullopt);
          out.add(std::nullopt == cat(i));
        }
        if constexpr (hasLess<P>) {
          out.add(cat(i) != cat(j));
          out.add(cat(i) < cat(j));
          out.add(cat(i) <= cat(j));
          out.add(cat(i) > cat(j));
          out.add(cat(i) >= cat(j));
          if constexpr (!IsNested<V>::value) {
            out.add(cat(i) != std::nullopt);
            out.add(cat(i) < std::nullopt);
            out.add(std::nullopt < cat(i));
          }
        }
        if constexpr (MC && !IsNested<V>::value) {
          V const v = GV::val(r.c1);
          out.add(cat(i) == v);
          out.add(v == cat(i));
          if constexpr (hasLess<P>) {
            out.add(cat(i) < v);
            out.add(v < cat(i));
            out.add(cat(i) >= v);
            out.add(v != cat(i));
          }
        }
        return true;
      }
      return false;
    case opAndThen: {
      auto f = [&](auto && x) {
        trk::event(trk::kCallback, 1, true);
        uint64_t const ob = obsP<M>(x);
        if constexpr (isTiny<Opt>) {
          return (ob & 1) ? tiny::optional<uint64_t>(ob) : tiny::optional<uint64_t>();
        }
        else {
          return (ob & 1) ? std::optional<uint64_t>(ob) : std::optional<uint64_t>();
        }
      };
      auto res = (r.variant & 1) ? doAndThen(at(i), f) : doAndThen(cat(i), f);
      out.add(res.has_value() ? *res : 0x1234);
      return true;
    }
    case opTransform: {
      auto apply = [&](auto && f) {
        auto add = [&](auto && res) { out.add(res.has_value() ? obsT(*res) : 0x12345); };
        switch (r.variant % 3) {
        case 0: add(doTransform(at(i), f)); break;
        case 1: add(doTransform(cat(i), f)); break;
        default: add(doTransform(std::move(at(i)), f)); break;
        }
      };
      if (r.variant & 8) {
        // The result is registered, its construction can throw as well.
        apply([&](auto && x) -> trk::Full {
          trk::event(trk::kCallback, 2, true);
          return trk::Full(static_cast<int>(obsP<M>(x) % 1000));
        });
      }
      else {
        apply([&](auto && x) {
          trk::event(trk::kCallback, 2, true);
          return static_cast<double>(obsP<M>(x) % 1000);
        });
      }
      return true;
    }
    case opOrElse:
#if __cplusplus >= 202002L
      if constexpr (CC && MC) {
        unsigned calls = 0;
        auto f = [&]() -> Opt {
          ++calls;
          trk::event(trk::kCallback, 3, true);
          return (r.variant & 2) ? Opt(std::nullopt) : Opt(std::in_place, argOf<M>(r.c1));
        };
        if (r.variant & 1) {
          Opt res = doOrElse(cat(i), f);
          out.add(obsOpt<M>(res));
        }
        else {
          Opt res = doOrElse(std::move(at(i)), f);
          out.add(obsOpt<M>(res));
        }
        out.add(calls);
        return true;
      }
#endif
      return false;
    case opAliasAsg:
      if constexpr (CA) {
        if (!at(j).has_value()) {
          return false;
        }
        if constexpr (Scalar || Trk) {
          if ((r.variant & 1) && i != j) {
            at(i) = std::move(*at(j));
            return true;
          }
        }
        at(i) = *at(j);
        return true;
      }
      return false;
    case opMake:
      if constexpr (MC) {
        // Through function arguments and return values.
        if constexpr (CC) {
          if (r.variant & 1) {
            Opt const o = byValue(at(j));
            rebuild(i, [&](void * m) { ::new (m) Opt(o); });
            return true;
          }
        }
        Opt o = byValue(std::move(at(j)));
        out.add(obsOpt<M>(o));
        if constexpr (MA) {
          at(i) = byValue(std::move(o));
        }
        return true;
      }
      return false;
    case opReturn:
      if constexpr (MC && MA) {
        if (i == j) {
          return false;
        }
        Opt tmp(std::move(at(i)));
        at(i) = std::move(at(j));
        at(j) = std::move(tmp);
        return true;
      }
      return false;
    default: return false;
    }
  }
};

struct HistOptions
{
  bool faults = false; // inject exceptions
  bool compareTrace = false; // compare the payload operations that were performed
  bool canaries = false;
  bool lifetime = false;
  unsigned maxOps = 24;
};

// Live heap allocations (see heap.h); 0 if not instrumented.
inline long (*gHeapLive)() = nullptr;

template <class M>
void history(pbt::Src & s, HistOptions const & opt)
{
  using Tiny = typename M::Opt;
  using Std = typename M::S;
  trk::st.reset();
  trk::st.checkLifetime = opt.lifetime;
  (void)cm::StrManip::marker(); // keeps a static allocation
  long const heapBefore = gHeapLive ? gHeapLive() : 0;
  {
    static Side<M, Std> a;
    static Side<M, Tiny> b;
    a.init();
    b.init();
    unsigned const n = 1 + s.draw(opt.maxOps);
    bool filled = false, emptied = false, cross = false, threw = false;
    for (unsigned k = 0; k < n; ++k) {
      OpRec r;
      r.op = s.draw(opCount);
      r.i = s.draw(kSlots);
      r.j = s.draw(kSlots);
      r.variant = s.draw(12);
      r.c1 = drawValid<M>(s);
      r.c2 = drawCode(s);
      r.fault = 0;
      if (opt.faults && s.flip()) {
        r.fault = 1 + s.draw(6);
      }
      bool const iBefore = a.at(r.i).has_value();
      bool const jBefore = a.at(r.j).has_value();

      Res ra, rb;
      static unsigned char snap[kSlots][sizeof(Tiny)];
      if (opt.canaries) {
        asm volatile("" ::: "memory");
        for (unsigned q = 0; q < kSlots; ++q) {
          memcpy(snap[q], b.cells[q].raw, sizeof snap[q]);
        }
      }
      static trk::Event traceA[trk::kMaxTrace];
      unsigned lenA = 0;
      bool okA = false, okB = false;
      unsigned throwA = 0, throwB = 0;
      trk::startOp(r.fault);
      try {
        okA = a.exec(r, ra);
      }
      catch (trk::Fault const & f) {
        throwA = f.number;
        okA = true;
      }
      if (!okA) {
        continue;
      }
      lenA = trk::st.traceLen;
      memcpy(traceA, trk::st.trace, lenA * sizeof traceA[0]);
      s.note("%s(%u,%u;v%u;%u:%llu)", opNames[r.op], r.i, r.j, r.variant, r.c1.kind, (unsigned long long)r.c1.bits);
      if (throwA) {
        s.note("!throws@%u", throwA);
        threw = true;
      }
      s.note(" ");
      trk::startOp(r.fault);
      try {
        okB = b.exec(r, rb);
      }
      catch (trk::Fault const & f) {
        throwB = f.number;
        okB = true;
      }
      trk::st.faultAt = 0;
      char const * const what = opNames[r.op];
      PBT_CHECK(okB, "%s: %s: not available although std::optional allowed it in the same state", M::name, what);
      PBT_CHECK(
          throwA == throwB,
          "%s: %s(%u,%u) step %u: std::optional threw fault %u, tiny::optional threw fault %u (0 = none)",
          M::name, what, r.i, r.j, k, throwA, throwB);
      PBT_CHECK(ra.n == rb.n, "%s: %s step %u: different number of observations (%u vs %u)", M::name, what, k, ra.n, rb.n);
      for (unsigned q = 0; q < ra.n; ++q) {
        PBT_CHECK(
            ra.v[q] == rb.v[q],
            "%s: %s(%u,%u) step %u: result %u differs: std::optional %llx, tiny::optional %llx",
            M::name, what, r.i, r.j, k, q, (unsigned long long)ra.v[q], (unsigned long long)rb.v[q]);
        s.transcript(ra.v[q] ^ q);
      }
      if (opt.compareTrace) {
        unsigned const lenB = trk::st.traceLen;
        for (unsigned q = 0; q < lenA && q < lenB; ++q) {
          PBT_CHECK(
              traceA[q].kind == trk::st.trace[q].kind && traceA[q].v == trk::st.trace[q].v,
              "%s: %s(%u,%u) step %u: payload operation %u differs: std::optional performs kind %u (value %d), "
              "tiny::optional kind %u (value %d)",
              M::name, what, r.i, r.j, k, q, traceA[q].kind, traceA[q].v, trk::st.trace[q].kind, trk::st.trace[q].v);
        }
        PBT_CHECK(
            lenA == lenB,
            "%s: %s(%u,%u) step %u: std::optional performs %u payload operations, tiny::optional %u",
            M::name, what, r.i, r.j, k, lenA, lenB);
      }
      trk::st.traceOn = false;
      for (unsigned q = 0; q < kSlots; ++q) {
        bool const ha = a.at(q).has_value();
        PBT_CHECK(
            ha == b.at(q).has_value(),
            "%s: after %s(%u,%u) at step %u: slot %u: std::optional has_value()==%d, tiny::optional %d",
            M::name, what, r.i, r.j, k, q, ha, b.at(q).has_value());
        PBT_CHECK(
            ha == static_cast<bool>(b.at(q)),
            "%s: after %s(%u,%u) at step %u: slot %u: operator bool disagrees with has_value()",
            M::name, what, r.i, r.j, k, q);
        if (ha) {
          uint64_t const oa = obsP<M>(*a.cat(q));
          uint64_t const ob = obsP<M>(*b.cat(q));
          PBT_CHECK(
              oa == ob,
              "%s: after %s(%u,%u) at step %u: slot %u: payload differs: std::optional %llx, tiny::optional %llx",
              M::name, what, r.i, r.j, k, q, (unsigned long long)oa, (unsigned long long)ob);
          s.transcript(oa);
        }
        else {
          s.transcript(0xe);
        }
      }
      trk::st.traceOn = true;
      if (opt.canaries) {
        asm volatile("" ::: "memory");
        b.checkCanaries(what);
        for (unsigned q = 0; q < kSlots; ++q) {
          if (q != r.i && (q != r.j || r.op == opCopyAsg || r.op == opCopyCtor)) {
            PBT_CHECK(
                memcmp(snap[q], b.cells[q].raw, sizeof snap[q]) == 0,
                "%s: %s(%u,%u) step %u: the bytes of the uninvolved optional %u changed", M::name, what, r.i, r.j, k, q);
          }
        }
      }
      filled = filled || (!iBefore && a.at(r.i).has_value());
      emptied = emptied || (iBefore && !a.at(r.i).has_value());
      cross = cross || (r.i != r.j && iBefore != jBefore && (r.op == opCopyAsg || r.op == opMoveAsg || r.op == opSwap || r.op == opCopyCtor || r.op == opMoveCtor));
      s.label(what);
    }
    if (opt.faults ? threw : (filled && emptied && cross)) {
      s.nontrivial();
    }
    if (filled && emptied) {
      s.label("case: filled and emptied");
    }
    if (cross) {
      s.label("case: two-optional op with different state");
    }
    if (threw) {
      s.label("case: exception");
    }
    trk::st.traceOn = false;
    b.destroyAll();
    if (opt.canaries) {
      b.checkCanaries("destruction");
    }
    a.destroyAll();
    trk::st.traceOn = true;
  }
  if (opt.lifetime) {
    PBT_CHECK(trk::st.liveCount == 0, "%s: lifetime: %u payload objects were never destroyed", M::name, trk::st.liveCount);
    if (gHeapLive) {
      PBT_CHECK(gHeapLive() == heapBefore, "%s: heap: %ld allocations leaked", M::name, gHeapLive() - heapBefore);
    }
  }
}
