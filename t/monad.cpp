// C09: and_then, transform, or_else.
#include "modes.h"
#include <functional>

// ------------------------------------------------------------------------------------------------ instrumented payload
struct Cnt
{
  static inline unsigned copies, moves, ctors;
  int v = 0;
  bool flag = false;
  Cnt() { ++ctors; }
  explicit Cnt(int i)
    : v(i)
  {
    ++ctors;
  }
  Cnt(Cnt const & o)
    : v(o.v)
    , flag(o.flag)
  {
    ++copies;
  }
  Cnt(Cnt && o) noexcept
    : v(o.v)
    , flag(o.flag)
  {
    o.v = -1000;
    ++moves;
  }
  Cnt & operator=(Cnt const & o)
  {
    v = o.v;
    flag = o.flag;
    ++copies;
    return *this;
  }
  Cnt & operator=(Cnt && o)
  {
    v = o.v;
    flag = o.flag;
    o.v = -1000;
    ++moves;
    return *this;
  }
  int get() const & { return v; }
  int twice() { return 2 * v; }
  tiny::optional<int> half() const { return v % 2 ? tiny::optional<int>() : tiny::optional<int>(v / 2); }
  tiny::optional<int> inner{7};
  static void zero() { copies = moves = ctors = 0; }
};
template <>
struct G<Cnt>
{
  static Cnt val(Code c) { return Cnt(static_cast<int>(c.bits % 1000)); }
  static uint64_t obs(Cnt const & c) { return static_cast<uint64_t>(c.v); }
};
// Neither copyable nor movable
struct Pin
{
  explicit Pin(int i)
    : v(i)
    , self(this)
  {
  }
  Pin(Pin const &) = delete;
  Pin & operator=(Pin const &) = delete;
  int v;
  Pin * self;
};
struct OnlyMove
{
  explicit OnlyMove(int i)
    : v(new int(i))
  {
  }
  std::unique_ptr<int> v;
};
// Would prefer an initializer_list / converting constructor if it were not directly initialised by the result
struct Greedy9
{
  explicit Greedy9(int i)
    : v(i)
  {
  }
  template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, Greedy9> && !std::is_same_v<std::decay_t<T>, int>>>
  Greedy9(T &&)
    : v(-77)
  {
  }
  int v;
};
struct SentNeg
{
  static constexpr int value = -123456;
};
MODE(CntSep, Cnt, tiny::optional<Cnt>)
MODE(CntMem, Cnt, tiny::optional<Cnt, &Cnt::flag>)
MODE(CntSent, Cnt, tiny::optional<Cnt, &Cnt::v, -5>)
MODE(CntVia, Cnt, tiny::optional_sentinel_via_type<Cnt, SentNeg, &Cnt::v>)
MODE(CntConst, Cnt const, tiny::optional<Cnt const>)

// ------------------------------------------------------------------------------------------------ recording callables
struct Rec
{
  unsigned calls = 0;
  unsigned fcat = 9; // 0 &, 1 const&, 2 &&, 3 const&&
  unsigned acat = 9;
  void const volatile * addr = nullptr;
};

template <class A>
constexpr unsigned catOf()
{
  return (std::is_const_v<std::remove_reference_t<A>> ? 1u : 0u) + (std::is_rvalue_reference_v<A> ? 2u : 0u);
}

// R(rec) makes the result. Not copyable: the callable itself has to be forwarded.
template <class Mk>
struct Callable
{
  Callable(Rec & r, Mk m)
    : rec(r)
    , mk(m)
  {
  }
  Callable(Callable const &) = delete;
  Rec & rec;
  Mk mk;
  template <class A>
  decltype(auto) go(unsigned f, A && a) const
  {
    ++rec.calls;
    rec.fcat = f;
    rec.acat = catOf<A &&>();
    rec.addr = std::addressof(a);
    return mk();
  }
  template <class A>
  decltype(auto) operator()(A && a) &
  {
    return go(0, std::forward<A>(a));
  }
  template <class A>
  decltype(auto) operator()(A && a) const &
  {
    return go(1, std::forward<A>(a));
  }
  template <class A>
  decltype(auto) operator()(A && a) &&
  {
    return go(2, std::forward<A>(a));
  }
  template <class A>
  decltype(auto) operator()(A && a) const &&
  {
    return go(3, std::forward<A>(a));
  }
};

// Calls fn with the optional as (&, const&, &&, const&&).
template <class O, class F>
void asCat(O & o, unsigned cat, F && fn)
{
  switch (cat) {
  case 0: fn(o); break;
  case 1: fn(static_cast<O const &>(o)); break;
  case 2: fn(std::move(o)); break;
  default: fn(static_cast<O const &&>(o)); break;
  }
}
// Kinds for which all result types are tried (compile time).
template <class M>
inline constexpr bool wide = false;
template <>
inline constexpr bool wide<CntSep> = true;
template <>
inline constexpr bool wide<CntMem> = true;
template <>
inline constexpr bool wide<BitDouble> = true;
template <>
inline constexpr bool wide<InpNeg> = true;

// All == false: only as rvalue
template <bool All, class C, class F>
void callableAs(C & c, unsigned & cat, F && fn)
{
  if constexpr (!All) {
    cat = 2;
    fn(std::move(c));
    return;
  }
  else {
  switch (cat) {
  case 0: fn(c); break;
  case 1: fn(static_cast<C const &>(c)); break;
  case 2: fn(std::move(c)); break;
  default: fn(static_cast<C const &&>(c)); break;
  }
  }
}

template <class M>
struct Source
{
  typename M::Opt o;
  bool full;
  uint64_t obs = 0;
  explicit Source(pbt::Src & s)
    : full(s.draw(3) != 0)
  {
    Code const c = drawValid<M>(s);
    if (s.flip()) { // some history
      o.emplace(G<typename M::V>::val(drawValid<M>(s)));
      o.reset();
    }
    if (full) {
      o.emplace(G<typename M::V>::val(c));
      obs = G<typename M::V>::obs(*o);
    }
  }
  void unchanged(char const * what)
  {
    PBT_CHECK(o.has_value() == full, "%s: %s changed the engagement of the source", M::name, what);
    if (full) {
      PBT_CHECK(G<typename M::V>::obs(*o) == obs, "%s: %s changed the source's value", M::name, what);
    }
  }
};

template <class M>
constexpr unsigned argCat(unsigned sourceCat)
{
  return std::is_const_v<typename M::P> ? (sourceCat | 1u) : sourceCat;
}

template <class M>
void checkCall(char const * what, Rec const & rec, Source<M> & src, unsigned scat, unsigned fcat)
{
  PBT_CHECK(rec.calls == (src.full ? 1u : 0u), "%s: %s called the callback %u times on an %s optional", M::name, what, rec.calls, src.full ? "engaged" : "empty");
  if (src.full) {
    PBT_CHECK(rec.fcat == fcat, "%s: %s: callable forwarded with category %u instead of %u", M::name, what, rec.fcat, fcat);
    PBT_CHECK(rec.acat == argCat<M>(scat), "%s: %s: payload passed with category %u instead of %u (bit 0: const, bit 1: rvalue)", M::name, what, rec.acat, argCat<M>(scat));
    PBT_CHECK(rec.addr == std::addressof(*src.o), "%s: %s: the callback did not get the payload itself", M::name, what);
  }
  if constexpr (std::is_same_v<typename M::V, Cnt>) {
    PBT_CHECK(Cnt::copies == 0 && Cnt::moves == 0 && Cnt::ctors == 0, "%s: %s copied or moved the payload (%u copies, %u moves)", M::name, what, Cnt::copies, Cnt::moves);
  }
  src.unchanged(what);
}

#define GENERIC_PRE                                                                                                    \
  Source<M> src(s);                                                                                                    \
  unsigned const scat = s.draw(4);                                                                                     \
  unsigned fcat = s.draw(4);                                                                                           \
  int const x = static_cast<int>(s.draw(1000));                                                                        \
  s.nontrivial();                                                                                                      \
  Rec rec;                                                                                                             \
  s.note("%s source cat %u callable cat %u result %d", src.full ? "engaged" : "empty", scat, fcat, x);                 \
  Cnt::zero();

template <class M>
void transformCase(pbt::Src & s)
{
  GENERIC_PRE
  auto run = [&](auto all, auto mk, auto check) {
    using R = std::remove_cv_t<decltype(mk())>;
    Callable<decltype(mk)> c(rec, mk);
    asCat(src.o, scat, [&](auto && o) {
      callableAs<decltype(all)::value>(c, fcat, [&](auto && f) {
        auto res = std::forward<decltype(o)>(o).transform(std::forward<decltype(f)>(f));
        static_assert(std::is_same_v<decltype(res), tiny::optional<R>>);
        checkCall<M>("transform", rec, src, scat, fcat);
        PBT_CHECK(res.has_value() == src.full, "%s: transform gives an %s result for an %s source", M::name, res.has_value() ? "engaged" : "empty", src.full ? "engaged" : "empty");
        if (src.full) {
          check(res);
        }
      });
    });
  };
  switch (s.draw(10)) {
  case 0: run(std::true_type(), [&] { return x; }, [&](auto & r) { PBT_CHECK(*r == x, "%s: transform: wrong result", M::name); }); break;
  case 1:
    if constexpr (wide<M> || true) {
      run(std::false_type(), [&]() -> Pin { return Pin(x); }, [&](auto & r) { PBT_CHECK(r->v == x && r->self == &*r, "%s: transform: result was not constructed in place", M::name); });
    }
    break;
  case 2:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return OnlyMove(x); }, [&](auto & r) { PBT_CHECK(*r->v == x, "%s: transform: wrong result", M::name); });
    }
    break;
  case 3:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return std::string(static_cast<size_t>(x % 50), 'q'); }, [&](auto & r) { PBT_CHECK(r->size() == static_cast<size_t>(x % 50), "%s: transform: wrong result", M::name); });
    }
    break;
  case 4:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return x * 0.5; }, [&](auto & r) { PBT_CHECK(*r == x * 0.5, "%s: transform: wrong result", M::name); });
    }
    break;
  case 5:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return (x & 1) != 0; }, [&](auto & r) { PBT_CHECK(*r == ((x & 1) != 0), "%s: transform: wrong result", M::name); });
    }
    break;
  case 6:
    if constexpr (wide<M>) {
      run(std::false_type(), [&]() -> int * { return x & 1 ? nullptr : &gSentObj; }, [&](auto & r) { PBT_CHECK(*r == (x & 1 ? nullptr : &gSentObj), "%s: transform: wrong result", M::name); });
    }
    break;
  case 7:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return tiny::optional<int>(x & 1 ? tiny::optional<int>() : tiny::optional<int>(x)); }, [&](auto & r) { PBT_CHECK(r->has_value() == !(x & 1), "%s: transform to an optional: wrong result", M::name); });
    }
    break;
  case 8:
    if constexpr (wide<M>) {
      run(std::false_type(), [&]() -> Greedy9 const { return Greedy9(x); }, [&](auto & r) { PBT_CHECK(r->v == x, "%s: transform: result not directly initialised", M::name); });
    }
    break;
  default:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return cm::IndexPair{x, 3}; }, [&](auto & r) { PBT_CHECK(r->a == x && r->b == 3, "%s: transform: wrong result", M::name); });
    }
    break;
  }
}

template <class M>
void andThenCase(pbt::Src & s)
{
  GENERIC_PRE
  bool const give = s.draw(3) != 0;
  auto run = [&](auto all, auto mk, auto check) {
    using R = std::remove_cv_t<std::remove_reference_t<decltype(mk())>>;
    Callable<decltype(mk)> c(rec, mk);
    asCat(src.o, scat, [&](auto && o) {
      callableAs<decltype(all)::value>(c, fcat, [&](auto && f) {
        auto res = std::forward<decltype(o)>(o).and_then(std::forward<decltype(f)>(f));
        static_assert(std::is_same_v<decltype(res), R>);
        checkCall<M>("and_then", rec, src, scat, fcat);
        PBT_CHECK(res.has_value() == (src.full && give), "%s: and_then gives the wrong engagement", M::name);
        if (src.full && give) {
          check(res);
        }
      });
    });
  };
  static tiny::optional<int> lv;
  lv = give ? tiny::optional<int>(x) : tiny::optional<int>();
  auto isX = [&](auto & r) { PBT_CHECK(*r == x, "%s: and_then: not the callback's result", M::name); };
  switch (s.draw(9)) {
  case 0: run(std::true_type(), [&] { return give ? tiny::optional<int>(x) : tiny::optional<int>(); }, isX); break;
  case 1:
    if constexpr (wide<M> || true) {
      run(std::false_type(), [&] { return give ? tiny::optional<int, -1>(x) : tiny::optional<int, -1>(); }, isX);
    }
    break;
  case 2:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return give ? tiny::optional_aip<long>(x) : tiny::optional_aip<long>(); }, isX);
    }
    break;
  case 3:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return give ? tiny::optional_sentinel_via_type<int, SentNeg>(x) : tiny::optional_sentinel_via_type<int, SentNeg>(); }, isX);
    }
    break;
  case 4:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return give ? tiny::optional<double>(x) : tiny::optional<double>(); }, isX);
    }
    break;
  case 5:
    if constexpr (wide<M>) {
      run(std::false_type(), [&]() -> tiny::optional<int> & { return lv; }, isX);
    }
    break;
  case 6:
    if constexpr (wide<M>) {
      run(std::false_type(), [&]() -> tiny::optional<int> const { return lv; }, isX);
    }
    break;
  case 7:
    if constexpr (wide<M>) {
      run(std::false_type(), [&]() -> tiny::optional<OnlyMove> { return give ? tiny::optional<OnlyMove>(std::in_place, x) : tiny::optional<OnlyMove>(); }, [&](auto & r) { PBT_CHECK(*r->v == x, "%s: and_then: not the callback's result", M::name); });
    }
    break;
  default:
    if constexpr (wide<M>) {
      run(std::false_type(), [&] { return give ? tiny::optional_inplace<int, cm::NegativeManip>(x) : tiny::optional_inplace<int, cm::NegativeManip>(); }, isX);
    }
    break;
  }
  PBT_CHECK(lv.has_value() == give, "%s: and_then changed the optional the callback referred to", M::name);
}

#if __cplusplus >= 202002L
// Callable without arguments
template <class Mk>
struct Callable0
{
  Callable0(Rec & r, Mk m)
    : rec(r)
    , mk(m)
  {
  }
  Callable0(Callable0 const &) = delete;
  Rec & rec;
  Mk mk;
  decltype(auto) go(unsigned f) const
  {
    ++rec.calls;
    rec.fcat = f;
    return mk();
  }
  decltype(auto) operator()() & { return go(0); }
  decltype(auto) operator()() const & { return go(1); }
  decltype(auto) operator()() && { return go(2); }
  decltype(auto) operator()() const && { return go(3); }
};

template <class M>
void orElseCase(pbt::Src & s)
{
  using O = typename M::Opt;
  using V = typename M::V;
  GENERIC_PRE
  bool const give = s.draw(3) != 0;
  Code const rc = drawValid<M>(s);
  V const rv = G<V>::val(rc);
  Cnt::zero();
  unsigned resultCtor = 0;
  auto mk = [&]() -> O {
    if (!give) {
      return O();
    }
    ++resultCtor;
    return O(std::in_place, rv);
  };
  Callable0<decltype(mk)> c(rec, mk);
  uint64_t const rvObs = G<V>::obs(rv);
  bool const rval = scat >= 2 && scat == 2;
  asCat(src.o, scat, [&](auto && o) {
    callableAs<true>(c, fcat, [&](auto && f) {
      O res = std::forward<decltype(o)>(o).or_else(std::forward<decltype(f)>(f));
      static_assert(std::is_same_v<decltype(std::forward<decltype(o)>(o).or_else(std::forward<decltype(f)>(f))), O>);
      PBT_CHECK(rec.calls == (src.full ? 0u : 1u), "%s: or_else called the callback %u times on an %s optional", M::name, rec.calls, src.full ? "engaged" : "empty");
      if (!src.full) {
        PBT_CHECK(rec.fcat == fcat, "%s: or_else: callable forwarded with category %u instead of %u", M::name, rec.fcat, fcat);
      }
      PBT_CHECK(res.has_value() == (src.full || give), "%s: or_else gives the wrong engagement", M::name);
      if (res.has_value()) {
        PBT_CHECK(G<V>::obs(*res) == (src.full ? src.obs : rvObs), "%s: or_else gives the wrong value", M::name);
      }
      if constexpr (std::is_same_v<V, Cnt>) {
        bool const moves = rval && !std::is_const_v<typename M::P>;
        unsigned const wantCopies = (src.full && !moves) ? 1 : (!src.full && give) ? 1 : 0;
        unsigned const wantMoves = (src.full && moves) ? 1 : 0;
        PBT_CHECK(Cnt::copies == wantCopies && Cnt::moves == wantMoves, "%s: or_else on a %s did %u copies and %u moves instead of %u and %u", M::name, rval ? "rvalue" : "lvalue", Cnt::copies, Cnt::moves, wantCopies, wantMoves);
        if (src.full && moves) {
          PBT_CHECK(src.o.has_value() && src.o->v == -1000, "%s: or_else on an rvalue did not move", M::name);
          return;
        }
      }
      if (!rval || std::is_scalar_v<V>) {
        src.unchanged("or_else");
      }
      else {
        PBT_CHECK(src.o.has_value() == src.full, "%s: or_else changed the engagement of the source", M::name);
      }
    });
  });
}
#endif

// Other kinds of callables; writes through the argument; exceptions.
static int freeFn(Cnt const & c)
{
  return c.v + 1;
}
static tiny::optional<int> freeFn2(Cnt & c)
{
  c.v += 5;
  return tiny::optional<int>(c.v);
}
template <class M>
void callables(pbt::Src & s)
{
  Source<M> src(s);
  s.nontrivial();
  unsigned const k = s.draw(11);
  s.note("callable kind %u %s", k, src.full ? "engaged" : "empty");
  auto & o = src.o;
  auto const & co = o;
  int const v = src.full ? o->v : 0;
  auto expect = [&](auto const & r, int want, char const * what) {
    PBT_CHECK(r.has_value() == src.full, "%s: %s: wrong engagement", M::name, what);
    if (src.full) {
      PBT_CHECK(*r == want, "%s: %s: %d instead of %d", M::name, what, static_cast<int>(*r), want);
    }
  };
  switch (k) {
  case 0: expect(co.transform(&freeFn), v + 1, "function pointer"); break;
  case 1: expect(co.transform(freeFn), v + 1, "function"); break;
  case 2: expect(co.transform(&Cnt::get), v, "member function pointer"); break;
  case 3:
    if constexpr (!std::is_const_v<typename M::P>) {
      expect(o.transform(&Cnt::twice), 2 * v, "non-const member function pointer");
    }
    break;
  case 4: {
    auto const r = co.and_then(&Cnt::half);
    PBT_CHECK(r.has_value() == (src.full && v % 2 == 0), "%s: and_then(member function)", M::name);
    break;
  }
  case 5: {
    auto const r = co.and_then(&Cnt::inner);
    expect(r, 7, "and_then(member pointer)");
    break;
  }
  case 6:
    if constexpr (!std::is_const_v<typename M::P>) {
      auto const r = o.and_then(freeFn2);
      expect(r, v + 5, "and_then(function that modifies)");
      PBT_CHECK(o.has_value() == src.full && (!src.full || o->v == v + 5), "%s: modification by the callback is lost", M::name);
      return;
    }
    break;
  case 7: {
    auto p = std::make_unique<int>(11);
    auto const r = co.transform([q = std::move(p)](Cnt const & c) { return c.v + *q; });
    expect(r, v + 11, "move-only lambda");
    break;
  }
  case 8: {
    std::function<int(Cnt const &)> const f = [](Cnt const & c) { return c.v - 1; };
    expect(co.transform(f), v - 1, "std::function");
    break;
  }
  case 9: {
    bool caught = false;
    try {
      (void)co.transform([](Cnt const &) -> int { throw std::string("boom"); });
    }
    catch (std::string const & e) {
      caught = e == "boom";
    }
    PBT_CHECK(caught == src.full, "%s: exception of transform's callback", M::name);
    break;
  }
  default: {
    bool caught = false;
    try {
      (void)co.and_then([](Cnt const &) -> tiny::optional<Cnt, &Cnt::flag> { throw 17; });
    }
    catch (int e) {
      caught = e == 17;
    }
    PBT_CHECK(caught == src.full, "%s: exception of and_then's callback", M::name);
    break;
  }
  }
  src.unchanged("callable");
}

// Callables whose result type depends on the category of the payload and on their own: also an empty source has to give the type
// that belongs to the categories of the expression.
template <unsigned K>
struct Tag
{
  static constexpr unsigned k = K;
  int v;
};
template <class A>
constexpr unsigned catVal = (std::is_const_v<std::remove_reference_t<A>> ? 1u : 0u) | (std::is_lvalue_reference_v<A> ? 0u : 2u);
template <template <class> class W>
struct CatFn
{
  template <class A>
  W<Tag<catVal<A &&> * 4 + 0>> operator()(A &&) & { return {{5}}; }
  template <class A>
  W<Tag<catVal<A &&> * 4 + 1>> operator()(A &&) const & { return {{5}}; }
  template <class A>
  W<Tag<catVal<A &&> * 4 + 2>> operator()(A &&) && { return {{5}}; }
  template <class A>
  W<Tag<catVal<A &&> * 4 + 3>> operator()(A &&) const && { return {{5}}; }
};
template <class T>
using Plain = T;
template <class T>
using TinyOf = tiny::optional<T>;
template <class T>
using StdOf = std::optional<T>;

template <class M, class Fn, bool Then>
void catAll(Source<M> & src, char const * what, unsigned scat, unsigned fcat, bool wantTiny)
{
  using O = typename M::Opt;
  Fn fn{};
  unsigned const want = argCat<M>(scat) * 4 + fcat;
  auto judge = [&](auto const & r) {
    using R = std::remove_cv_t<std::remove_reference_t<decltype(r)>>;
    unsigned const k = std::remove_reference_t<decltype(*r)>::k;
    PBT_CHECK(k == want && tiny::is_tiny_optional_v<R> == wantTiny, "%s: %s: result type of categories %u instead of %u (payload*4+callable)", M::name, what, k, want);
    PBT_CHECK(r.has_value() == src.full && (!src.full || r->v == 5), "%s: %s: wrong result", M::name, what);
  };
  auto go = [&](auto && o, auto && f) {
    if constexpr (Then) {
      judge(std::forward<decltype(o)>(o).and_then(std::forward<decltype(f)>(f)));
    }
    else {
      judge(std::forward<decltype(o)>(o).transform(std::forward<decltype(f)>(f)));
    }
  };
  auto withF = [&](auto && o) {
    switch (fcat) {
    case 0: go(std::forward<decltype(o)>(o), fn); break;
    case 1: go(std::forward<decltype(o)>(o), static_cast<Fn const &>(fn)); break;
    case 2: go(std::forward<decltype(o)>(o), std::move(fn)); break;
    default: go(std::forward<decltype(o)>(o), static_cast<Fn const &&>(fn)); break;
    }
  };
  switch (scat) {
  case 0: withF(src.o); break;
  case 1: withF(static_cast<O const &>(src.o)); break;
  case 2: withF(std::move(src.o)); break;
  default: withF(static_cast<O const &&>(src.o)); break;
  }
}
template <class M>
void categories(pbt::Src & s)
{
  Source<M> src(s);
  unsigned const scat = s.draw(4), fcat = s.draw(4), op = s.draw(3);
  s.note("%s source cat %u callable cat %u op %u", src.full ? "engaged" : "empty", scat, fcat, op);
  s.nontrivial();
  switch (op) {
  case 0: catAll<M, CatFn<Plain>, false>(src, "transform", scat, fcat, true); break;
  case 1: catAll<M, CatFn<TinyOf>, true>(src, "and_then", scat, fcat, true); break;
  default: catAll<M, CatFn<StdOf>, true>(src, "and_then (std::optional)", scat, fcat, false); break;
  }
  src.unchanged("callable");
}

// Chains, compared with std::optional's (C++23) or its definition.
template <class M>
void chain(pbt::Src & s)
{
  Source<M> src(s);
  unsigned const n = 1 + s.draw(6);
  tiny::optional<int> t = src.o.transform([](auto const & p) { return static_cast<int>(G<typename M::V>::obs(p) % 100); });
  std::optional<int> m = src.full ? std::optional<int>(static_cast<int>(src.obs % 100)) : std::nullopt;
  for (unsigned k = 0; k < n; ++k) {
    switch (s.draw(3)) {
    case 0:
      t = t.transform([](int i) { return i * 3 + 1; });
      m = m ? std::optional<int>(*m * 3 + 1) : std::nullopt;
      break;
    case 1:
      t = std::move(t).and_then([](int i) { return i % 3 ? tiny::optional<int>(i - 1) : tiny::optional<int>(); });
      m = m ? (*m % 3 ? std::optional<int>(*m - 1) : std::nullopt) : std::nullopt;
      break;
    default:
#if __cplusplus >= 202002L
      t = t.or_else([] { return tiny::optional<int>(8); });
      m = m ? m : std::optional<int>(8);
#endif
      break;
    }
  }
  if (n > 1) {
    s.nontrivial();
  }
  PBT_CHECK(t.has_value() == m.has_value() && (!m || *m == *t), "%s: chain gives a different result", M::name);
}

#define KINDS(X)                                                                                                       \
  X(SepInt) X(SepString) X(SepConstInt) X(BitBool) X(BitDouble) X(BitPtr) X(BitConstDouble) X(AipInt) X(SentIntM1) X(SentEClass) X(ViaInt) X(MemPodB) X(MemPodISent) X(CusPair) X(CusMemE) X(InpNeg) X(InpStr) X(InpIter) X(CntSep) X(CntMem) X(CntSent) X(CntVia) X(CntConst)
#define CNTS(X) X(CntSep) X(CntMem) X(CntSent) X(CntVia) X(CntConst)
#define R1(M) static pbt::Reg t_##M("transform/" #M, &transformCase<M>);
#define R2(M) static pbt::Reg a_##M("and_then/" #M, &andThenCase<M>);
#define R3(M) static pbt::Reg o_##M("or_else/" #M, &orElseCase<M>);
#define R4(M) static pbt::Reg c_##M("callables/" #M, &callables<M>);
#define R6(M) static pbt::Reg k_##M("categories/" #M, &categories<M>);
#define R5(M) static pbt::Reg ch_##M("chain/" #M, &chain<M>);
#if PART == 0
KINDS(R1)
#elif PART == 1
KINDS(R2)
#else
  #if __cplusplus >= 202002L
KINDS(R3)
  #endif
CNTS(R4)
CNTS(R6)
R6(SepInt) R6(BitConstDouble) R6(SentIntM1) R6(InpStr)
KINDS(R5)
#endif
