// C10: accessors give the payload itself with the right type, category, address; value()/value_or() semantics.
#include "hist.h"
#include <typeinfo>

template <class O>
void checkTypes(char const * name)
{
  using P = typename O::value_type;
  using V = std::remove_cv_t<P>;
  auto const req = [&](bool ok, char const * what) { PBT_CHECK(ok, "%s: the type of %s is wrong", name, what); };
#define TYPE(EXPR, WANT) req(std::is_same_v<decltype(EXPR), WANT>, #EXPR)
#define L std::declval<O &>()
#define CL std::declval<O const &>()
#define R std::declval<O &&>()
#define CR std::declval<O const &&>()
  TYPE(*L, P &);
  TYPE(*CL, P const &);
  TYPE(*R, P &&);
  TYPE(*CR, P const &&);
  TYPE(L.value(), P &);
  TYPE(CL.value(), P const &);
  TYPE(R.value(), P &&);
  TYPE(CR.value(), P const &&);
  TYPE(L.operator->(), P *);
  TYPE(CL.operator->(), P const *);
  TYPE(R.operator->(), P *);
  TYPE(CR.operator->(), P const *);
  TYPE(L.has_value(), bool);
  TYPE(CL.has_value(), bool);
  TYPE(L.reset(), void);
  if constexpr (std::is_copy_constructible_v<P>) {
    TYPE(L.value_or(std::declval<V>()), V);
    TYPE(CL.value_or(std::declval<V>()), V);
    TYPE(CR.value_or(std::declval<V>()), V);
  }
  if constexpr (std::is_move_constructible_v<P>) {
    TYPE(R.value_or(std::declval<V>()), V);
  }
  req(noexcept(*L) && noexcept(*CL) && noexcept(*R) && noexcept(*CR), "operator* (noexcept)");
  req(noexcept(L.operator->()) && noexcept(CL.operator->()), "operator-> (noexcept)");
  req(!noexcept(L.value()) && !noexcept(CL.value()) && !noexcept(R.value()) && !noexcept(CR.value()), "value() (not noexcept)");
  req(noexcept(CL.has_value()) && noexcept(static_cast<bool>(CL)) && noexcept(L.reset()), "has_value/bool/reset (noexcept)");
  req(!std::is_convertible_v<O, bool> && std::is_constructible_v<bool, O const &>, "operator bool (explicit)");
#undef TYPE
#undef L
#undef CL
#undef R
#undef CR
}

template <class T>
void const * addr(T && t)
{
  return const_cast<void const *>(static_cast<void const volatile *>(std::addressof(t)));
}

template <class M>
struct Acc
{
  using O = typename M::Opt;
  using P = typename M::P;
  using V = typename M::V;

  // All accessors of an engaged optional agree on one address; returns it.
  static void const * where(O & o, char const * after)
  {
    O const & c = o;
    PBT_CHECK(o.has_value(), "%s: empty after %s", M::name, after);
    void const * const a = addr(*o);
    unsigned k = 0;
    auto same = [&](void const * b) {
      PBT_CHECK(a == b, "%s: after %s: accessor %u refers to another object than operator*", M::name, after, k);
      ++k;
    };
    same(addr(*c));
    {
      auto && r = *std::move(o);
      same(addr(r));
    }
    {
      auto && r = *std::move(c);
      same(addr(r));
    }
    same(const_cast<void const *>(static_cast<void const volatile *>(o.operator->())));
    same(const_cast<void const *>(static_cast<void const volatile *>(c.operator->())));
    same(addr(o.value()));
    same(addr(c.value()));
    {
      auto && r = std::move(o).value();
      same(addr(r));
    }
    {
      auto && r = std::move(c).value();
      same(addr(r));
    }
    auto const lo = reinterpret_cast<std::uintptr_t>(addr(o)), p = reinterpret_cast<std::uintptr_t>(a);
    PBT_CHECK(p >= lo && p + sizeof(P) <= lo + sizeof(O), "%s: after %s: the payload is not inside the optional", M::name, after);
    PBT_CHECK(p % alignof(P) == 0, "%s: after %s: the payload is misaligned", M::name, after);
    return a;
  }

  static void expectThrow(O & o, char const * after)
  {
    O const & c = o;
    PBT_CHECK(!o.has_value() && !o, "%s: not empty after %s", M::name, after);
    for (unsigned k = 0; k < 4; ++k) {
      bool thrown = false;
      try {
        switch (k) {
        case 0: (void)o.value(); break;
        case 1: (void)c.value(); break;
        case 2: (void)std::move(o).value(); break;
        default: (void)std::move(c).value(); break;
        }
      }
      catch (std::exception const & e) {
        thrown = typeid(e) == typeid(std::bad_optional_access);
      }
      PBT_CHECK(thrown, "%s: value() overload %u of an empty optional (after %s) does not throw bad_optional_access", M::name, k, after);
      PBT_CHECK(!o.has_value(), "%s: value() changed an empty optional", M::name);
    }
  }
};

template <class M>
void prop(pbt::Src & s)
{
  using A = Acc<M>;
  using O = typename M::Opt;
  using P = typename M::P;
  using V = typename M::V;
  using GV = G<V>;
  constexpr bool CC = std::is_copy_constructible_v<P>, MC = std::is_move_constructible_v<P>, Trk = isTracked<V>;
  constexpr bool MA = MC && std::is_move_assignable_v<P>, CA = CC && std::is_copy_assignable_v<P>;
  trk::st.reset();
  trk::st.checkLifetime = false;
  checkTypes<O>(M::name);
  // Two optionals at generated positions (all positions are correctly aligned, but not more than that).
  static unsigned char buffer[4096 + 64 * 64];
  std::uintptr_t const base = (reinterpret_cast<std::uintptr_t>(buffer) + 63) / 64 * 64;
  unsigned const off1 = s.draw(16) * alignof(O);
  unsigned const off2 = static_cast<unsigned>((off1 + sizeof(O) + alignof(O) - 1) / alignof(O) * alignof(O)) + s.draw(8) * alignof(O);
  memset(buffer, static_cast<int>(s.draw(256)), sizeof buffer);
  O * const o1 = ::new (reinterpret_cast<void *>(base + off1)) O();
  O * const o2 = ::new (reinterpret_cast<void *>(base + off2)) O();
  O * const opt[2] = {o1, o2};
  bool model[2] = {false, false};
  uint64_t val[2] = {0, 0};
  bool known[2] = {false, false}; // is val known (not after a move)
  void const * pos[2] = {nullptr, nullptr};
  bool sawEngaged = false, sawEmpty = false, rewritten = false;
  unsigned const n = 1 + s.draw(14);
  for (unsigned k = 0; k < n; ++k) {
    unsigned const i = s.draw(2), op = s.draw(12), variant = s.draw(8);
    O & o = *opt[i];
    O & other = *opt[1 - i];
    Code const c = drawValid<M>(s);
    char const * what = "?";
    bool fresh = false; // is there a new payload object in o?
    switch (op) {
    case 0:
    case 1: {
      what = "emplace";
      P & r = o.emplace(argOf<M>(c));
      static_assert(std::is_same_v<decltype(o.emplace(argOf<M>(c))), P &>);
      PBT_CHECK(addr(r) == addr(*o), "%s: emplace does not return the payload", M::name);
      fresh = true;
      model[i] = known[i] = true;
      val[i] = obsP<M>(r);
      break;
    }
    case 2:
      what = "reset";
      o.reset();
      model[i] = false;
      break;
    case 3:
      what = "nullopt";
      o = std::nullopt;
      model[i] = false;
      break;
    case 4:
      if constexpr (MA) {
        what = "value assignment";
        fresh = !model[i];
        o = GV::val(c);
        model[i] = known[i] = true;
        val[i] = obsP<M>(*o);
        PBT_CHECK(val[i] == (Trk ? static_cast<uint64_t>(GV::obs(GV::val(c))) : GV::obs(GV::val(c))) || !std::is_scalar_v<V>, "%s: wrong value after assignment", M::name);
      }
      break;
    case 5:
      if constexpr (CA) {
        what = "copy assignment";
        fresh = !model[i] && model[1 - i];
        o = other;
        model[i] = model[1 - i];
        known[i] = known[1 - i];
        val[i] = val[1 - i];
      }
      break;
    case 6:
      if constexpr (MC && std::is_swappable_v<P>) {
        what = "swap";
        fresh = !model[i] && model[1 - i];
        bool const otherFresh = model[i] && !model[1 - i];
        o.swap(other);
        std::swap(model[0], model[1]);
        std::swap(known[0], known[1]);
        std::swap(val[0], val[1]);
        if (otherFresh) {
          pos[1 - i] = addr(*other);
        }
      }
      break;
    case 7:
    case 8:
      // Write through one accessor, see it through all.
      if constexpr (!std::is_const_v<P> && (Trk || MA)) {
        if (model[i]) {
          what = "write through an accessor";
          rewritten = true;
          auto put = [&](P & p) {
            if constexpr (Trk) {
              p.v = GV::arg(c);
            }
            else {
              p = GV::val(c);
            }
          };
          switch (variant % 5) {
          case 0: put(*o); break;
          case 1: put(*o.operator->()); break;
          case 2: put(o.value()); break;
          case 3: {
            P && r = *std::move(o);
            put(r);
            break;
          }
          default: {
            P && r = std::move(o).value();
            put(r);
            break;
          }
          }
          uint64_t want;
          if constexpr (Trk) {
            want = static_cast<uint32_t>(GV::arg(c));
          }
          else {
            want = obsP<M>(*o);
            if constexpr (std::is_scalar_v<V>) {
              PBT_CHECK(want == GV::obs(GV::val(c)), "%s: a write through an accessor is not seen by operator*", M::name);
            }
          }
          val[i] = want;
          known[i] = true;
        }
      }
      break;
    case 9:
      // value_or on an lvalue: the source does not change, the argument is touched only when it is needed.
      if constexpr (CC) {
        what = "value_or on an lvalue";
        V d = GV::val(c);
        uint64_t const dObs = GV::obs(d);
        uint64_t const got = (variant & 1) ? GV::obs(o.value_or(std::move(d))) : GV::obs(static_cast<O const &>(o).value_or(std::move(d)));
        if (model[i]) {
          PBT_CHECK(GV::obs(d) == dObs, "%s: value_or() touched its argument although it was not needed", M::name);
          if (known[i] && !std::is_same_v<V, Greedy> && !std::is_same_v<V, std::shared_ptr<int>>) {
            PBT_CHECK(got == val[i], "%s: value_or() of an engaged optional returns something else than the payload", M::name);
          }
        }
        else if (!std::is_same_v<V, Greedy> && !std::is_same_v<V, std::shared_ptr<int>>) {
          PBT_CHECK(got == dObs, "%s: value_or() of an empty optional does not return its argument", M::name);
        }
      }
      break;
    case 10:
      if constexpr (MC) {
        what = "value_or on an rvalue";
        V d = GV::val(c);
        uint64_t const dObs = GV::obs(d);
        bool const eng = model[i];
        trk::startOp(0);
        uint64_t const got = GV::obs(std::move(o).value_or(std::move(d)));
        if (eng) {
          PBT_CHECK(GV::obs(d) == dObs, "%s: value_or() && touched its argument although it was not needed", M::name);
          if (known[i] && !std::is_same_v<V, Greedy> && !std::is_same_v<V, std::shared_ptr<int>>) {
            PBT_CHECK(got == val[i], "%s: value_or() && of an engaged optional returns something else than the payload", M::name);
          }
        }
        else if (!std::is_same_v<V, Greedy> && !std::is_same_v<V, std::shared_ptr<int>>) {
          PBT_CHECK(got == dObs, "%s: value_or() && of an empty optional does not return its argument", M::name);
        }
        // The moved-from payload is still there.
        known[i] = false;
        if (eng) {
          val[i] = obsP<M>(*o);
          known[i] = true;
        }
      }
      break;
    default:
      what = "observation";
      break;
    }
    s.note("%s(%u) ", what, i);
    s.label(what);
    if (fresh) {
      pos[i] = addr(*o);
    }
    for (unsigned q = 0; q < 2; ++q) {
      PBT_CHECK(opt[q]->has_value() == model[q], "%s: after %s: optional %u has_value() is wrong", M::name, what, q);
      if (model[q]) {
        sawEngaged = true;
        void const * const a = A::where(*opt[q], what);
        PBT_CHECK(a == pos[q], "%s: after %s: the payload of optional %u moved to another address", M::name, what, q);
        uint64_t const now = obsP<M>(**opt[q]);
        if (known[q] && !std::is_same_v<V, Greedy> && !std::is_same_v<V, std::shared_ptr<int>>) {
          PBT_CHECK(now == val[q], "%s: after %s: the payload of optional %u has the wrong value", M::name, what, q);
          O const & co = *opt[q];
          PBT_CHECK(obsP<M>(co.value()) == now && obsP<M>(*co.operator->()) == now && obsP<M>(*co) == now, "%s: accessors disagree", M::name);
        }
      }
      else {
        sawEmpty = true;
        A::expectThrow(*opt[q], what);
      }
    }
  }
  if (sawEngaged && (sawEmpty || rewritten)) {
    s.nontrivial();
  }
  o1->~O();
  o2->~O();
}

// The payload operations of value_or() are those of std::optional (instrumented payloads only).
template <class M>
void propValueOr(pbt::Src & s)
{
  using V = typename M::V;
  using P = typename M::P;
  if constexpr (isTracked<V>) {
    using GV = G<V>;
    trk::st.reset();
    trk::st.checkLifetime = true;
    {
      bool const engaged = s.flip();
      unsigned const variant = s.draw(8);
      Code const c1 = drawValid<M>(s), c2 = drawValid<M>(s);
      s.note("engaged %d variant %u", engaged, variant);
      s.nontrivial();
      trk::Event ev[2][trk::kMaxTrace];
      unsigned len[2];
      uint64_t got[2], after[2], arg[2];
      auto run = [&](auto & o, unsigned k) {
        if (engaged) {
          o.emplace(GV::arg(c1));
        }
        V d(GV::arg(c2));
        int di = GV::arg(c2);
        auto const & c = o;
        trk::startOp(0);
        got[k] = 1;
        switch (variant) {
        case 0: if constexpr (std::is_copy_constructible_v<P>) { got[k] = c.value_or(d).v; } break;
        case 1: if constexpr (std::is_copy_constructible_v<P>) { got[k] = o.value_or(std::move(d)).v; } break;
        case 2: if constexpr (std::is_copy_constructible_v<P>) { got[k] = o.value_or(di).v; } break;
        case 3: if constexpr (std::is_copy_constructible_v<P>) { got[k] = std::move(c).value_or(std::move(d)).v; } break;
        case 4: if constexpr (std::is_copy_constructible_v<P>) { got[k] = std::move(o).value_or(d).v; } break;
        case 5: if constexpr (std::is_move_constructible_v<P>) { got[k] = std::move(o).value_or(std::move(d)).v; } break;
        case 6: if constexpr (std::is_move_constructible_v<P>) { got[k] = std::move(o).value_or(di).v; } break;
        default: if constexpr (std::is_copy_constructible_v<P>) { V const cd(5); trk::startOp(0); got[k] = std::move(o).value_or(cd).v; } break;
        }
        len[k] = trk::st.traceLen;
        memcpy(ev[k], trk::st.trace, len[k] * sizeof ev[k][0]);
        after[k] = o.has_value() ? static_cast<uint64_t>((*o).v) : 0xe000000;
        arg[k] = static_cast<uint64_t>(d.v);
      };
      std::optional<P> so;
      typename M::Opt to;
      run(so, 0);
      run(to, 1);
      PBT_CHECK(got[0] == got[1], "%s: value_or variant %u engaged %d: result differs from std::optional", M::name, variant, engaged);
      PBT_CHECK(after[0] == after[1], "%s: value_or variant %u engaged %d: the optional afterwards differs from std::optional", M::name, variant, engaged);
      PBT_CHECK(arg[0] == arg[1], "%s: value_or variant %u engaged %d: the argument afterwards differs from std::optional", M::name, variant, engaged);
      PBT_CHECK(len[0] == len[1], "%s: value_or variant %u engaged %d: %u payload operations instead of %u", M::name, variant, engaged, len[1], len[0]);
      for (unsigned q = 0; q < len[0]; ++q) {
        PBT_CHECK(ev[0][q].kind == ev[1][q].kind && ev[0][q].v == ev[1][q].v, "%s: value_or variant %u engaged %d: payload operation %u differs from std::optional", M::name, variant, engaged, q);
      }
    }
    PBT_CHECK(trk::st.liveCount == 0, "%s: payload objects were leaked", M::name);
  }
}

// Conversions by value_or: the argument is converted exactly when it is needed.
struct Conv
{
  int * conversions;
  int v;
  operator std::string() const
  {
    ++*conversions;
    return std::to_string(v);
  }
  operator double() const
  {
    ++*conversions;
    return v * 0.5;
  }
  operator int *() const
  {
    ++*conversions;
    return &gInts[v & 7];
  }
  operator bool() const = delete;
};
template <class O, class P>
static void convCase(pbt::Src & s, P engagedValue, P converted, int v)
{
  O o;
  bool const engaged = s.flip();
  if (engaged) {
    o = engagedValue;
  }
  int calls = 0;
  Conv const c{&calls, v};
  bool const rv = s.flip();
  P const got = rv ? std::move(o).value_or(c) : o.value_or(c);
  s.nontrivial();
  PBT_CHECK(got == (engaged ? engagedValue : converted), "value_or with a converting argument: wrong result");
  PBT_CHECK(calls == (engaged ? 0 : 1), "value_or with a converting argument: %d conversions", calls);
}
static void propConv(pbt::Src & s)
{
  int const v = static_cast<int>(s.draw(100));
  switch (s.draw(6)) {
  case 0: convCase<tiny::optional<std::string>>(s, std::string("e"), std::to_string(v), v); break;
  case 1: convCase<tiny::optional<double>>(s, 3.25, v * 0.5, v); break;
  case 2: convCase<tiny::optional<int *>>(s, static_cast<int *>(nullptr), &gInts[v & 7], v); break;
  case 3: convCase<tiny::optional_sentinel_via_type<double, SentDouble>>(s, 3.25, v * 0.5, v); break;
  case 4: convCase<tiny::optional<int *, nullptr>>(s, &gInts[7], &gInts[v & 7], v); break;
  default: convCase<tiny::optional_inplace<std::string, cm::StrManip>>(s, std::string("e"), std::to_string(v), v); break;
  }
}

// value_or has to accept a default that equals the sentinel.
static void propSentinelDefault(pbt::Src & s)
{
  s.nontrivial();
  int const k = static_cast<int>(s.draw(4));
  bool const rv = s.flip();
  switch (k) {
  case 0: {
    tiny::optional<int, -1> o;
    int const r = rv ? std::move(o).value_or(-1) : o.value_or(-1);
    PBT_CHECK(r == -1 && !o.has_value(), "value_or with the sentinel as default");
    break;
  }
  case 1: {
    tiny::optional_aip<unsigned> o;
    unsigned const r = rv ? std::move(o).value_or(UINT_MAX) : o.value_or(UINT_MAX);
    PBT_CHECK(r == UINT_MAX && !o.has_value(), "value_or with the sentinel as default");
    break;
  }
  case 2: {
    tiny::optional<int *, nullptr> o;
    int * const r = rv ? std::move(o).value_or(nullptr) : o.value_or(nullptr);
    PBT_CHECK(r == nullptr && !o.has_value(), "value_or with the sentinel as default");
    break;
  }
  default: {
    tiny::optional<cm::IndexPair> o;
    cm::IndexPair const r = rv ? std::move(o).value_or(cm::IndexPair{-1, -1}) : o.value_or(cm::IndexPair{-1, -1});
    PBT_CHECK(r.a == -1 && !o.has_value(), "value_or with the sentinel as default");
    break;
  }
  }
}

#define X(M) static pbt::Reg reg_##M("acc/" #M, &prop<M>);
#define Y(M) static pbt::Reg regv_##M("value_or/" #M, &propValueOr<M>);
#ifdef GRP_A
GROUP_A(X)
static pbt::Reg regConv("conv", &propConv);
static pbt::Reg regSD("sentinel-default", &propSentinelDefault);
#endif
#ifdef GRP_B
GROUP_B(X)
#endif
#ifdef GRP_C
GROUP_C(X)
#endif
#ifdef GRP_D
GROUP_D(X)
#endif
#ifdef GRP_E
GROUP_E(X)
GROUP_E(Y)
#endif
