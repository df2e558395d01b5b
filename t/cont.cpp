// Optionals inside standard containers: the same operations on a container of tiny optionals and of std::optionals.
#include "hist.h"
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include <variant>
#include <vector>

template <class M, class CA, class CB>
void sameSeq(char const * what, CA const & a, CB const & b)
{
  PBT_CHECK(a.size() == b.size(), "%s: %s: sizes differ", M::name, what);
  auto ia = a.begin();
  auto ib = b.begin();
  for (unsigned k = 0; ia != a.end(); ++ia, ++ib, ++k) {
    PBT_CHECK(
        obsOpt<M>(*ia) == obsOpt<M>(*ib), "%s: %s: element %u differs (std %llx, tiny %llx)", M::name, what, k,
        (unsigned long long)obsOpt<M>(*ia), (unsigned long long)obsOpt<M>(*ib));
  }
}

// kind: 0 vector, 1 deque, 2 list
template <class M, template <class...> class C, bool RA>
void seq(pbt::Src & s)
{
  using A = typename M::S;
  using B = typename M::Opt;
  C<A> a;
  C<B> b;
  unsigned const n = 1 + s.draw(40);
  bool mixed = false, moved = false;
  auto mk = [](auto * p, bool full, Code c) {
    using O = std::remove_reference_t<decltype(*p)>;
    return full ? O(std::in_place, G<typename M::V>::val(c)) : O();
  };
  for (unsigned k = 0; k < n; ++k) {
    unsigned const op = s.draw(14);
    bool const full = s.draw(3) != 0;
    Code const c = drawValid<M>(s);
    unsigned const p = static_cast<unsigned>(a.empty() ? 0 : s.draw(static_cast<uint32_t>(a.size())));
    unsigned const q = static_cast<unsigned>(a.empty() ? 0 : s.draw(static_cast<uint32_t>(a.size())));
    auto at = [](auto & x, unsigned i) { return std::next(x.begin(), static_cast<long>(i)); };
    s.note("%u(%u,%u,%d) ", op, p, q, full);
    switch (op) {
    case 0:
    case 1:
      a.push_back(mk((A *)nullptr, full, c));
      b.push_back(mk((B *)nullptr, full, c));
      break;
    case 2:
      a.insert(at(a, p), mk((A *)nullptr, full, c));
      b.insert(at(b, p), mk((B *)nullptr, full, c));
      moved = moved || a.size() > 2;
      break;
    case 3:
      if (!a.empty()) {
        a.erase(at(a, p));
        b.erase(at(b, p));
        moved = true;
      }
      break;
    case 4:
      if (a.size() < 200) {
        a.resize(a.size() + p % 5);
        b.resize(b.size() + p % 5);
      }
      break;
    case 5:
      if (!a.empty()) {
        std::swap(*at(a, p), *at(a, q));
        std::swap(*at(b, p), *at(b, q));
      }
      break;
    case 6:
      if (!a.empty()) {
        *at(a, p) = mk((A *)nullptr, full, c);
        *at(b, p) = mk((B *)nullptr, full, c);
      }
      break;
    case 7:
      if (!a.empty()) {
        at(a, p)->reset();
        at(b, p)->reset();
      }
      break;
    case 8: {
      C<A> a2(std::move(a));
      C<B> b2(std::move(b));
      a = C<A>(std::make_move_iterator(a2.begin()), std::make_move_iterator(a2.end()));
      b = C<B>(std::make_move_iterator(b2.begin()), std::make_move_iterator(b2.end()));
      break;
    }
    case 9: std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); break;
    case 10:
      if constexpr (RA) {
        if (!a.empty()) {
          std::rotate(a.begin(), at(a, p), a.end());
          std::rotate(b.begin(), at(b, p), b.end());
          moved = true;
        }
      }
      break;
    case 11:
      if constexpr (RA && hasLess<typename M::P>) {
        bool hasNan = false;
        if constexpr (std::is_floating_point_v<typename M::P>) {
          for (auto const & x : a) {
            uint64_t bits = 0;
            if (x) {
              memcpy(&bits, &*x, sizeof(typename M::P) < 8 ? sizeof(typename M::P) : 8);
            }
            // No ordering with NaN
            hasNan = hasNan || (x && (sizeof(typename M::P) == 4 ? (bits & 0x7fffffffu) > 0x7f800000u : (bits & 0x7fffffffffffffffull) > 0x7ff0000000000000ull));
          }
        }
        if (!hasNan) {
          std::stable_sort(a.begin(), a.end());
          std::stable_sort(b.begin(), b.end());
          moved = true;
        }
      }
      break;
    case 12: {
      auto ra = std::remove_if(a.begin(), a.end(), [](auto const & o) { return !o.has_value(); });
      auto rb = std::remove_if(b.begin(), b.end(), [](auto const & o) { return !o.has_value(); });
      a.erase(ra, a.end());
      b.erase(rb, b.end());
      moved = true;
      break;
    }
    default:
      if constexpr (std::is_copy_constructible_v<typename M::P>) {
        C<A> a2(a);
        C<B> b2(b);
        a2.insert(a2.end(), a.begin(), at(a, p));
        b2.insert(b2.end(), b.begin(), at(b, p));
        if (a2.size() < 300) {
          a = a2;
          b = b2;
        }
      }
      break;
    }
    sameSeq<M>("after an operation", a, b);
    bool e = false, f = false;
    for (auto const & x : a) {
      (x ? f : e) = true;
    }
    mixed = mixed || (e && f);
  }
  if (mixed && moved) {
    s.nontrivial();
  }
  for (auto const & x : a) {
    s.transcript(obsOpt<M>(x));
  }
}

// In aggregates, tuples, variants, maps.
template <class M>
void agg(pbt::Src & s)
{
  using A = typename M::S;
  using B = typename M::Opt;
  std::tuple<char, A, A> ta;
  std::tuple<char, B, B> tb;
  std::variant<int, A> va;
  std::variant<int, B> vb;
  std::map<int, A> ma;
  std::map<int, B> mb;
  std::pair<A, A> pa;
  std::pair<B, B> pb;
  unsigned const n = 1 + s.draw(24);
  unsigned engaged = 0;
  auto mk = [](auto * p, bool full, Code c) {
    using O = std::remove_reference_t<decltype(*p)>;
    return full ? O(std::in_place, G<typename M::V>::val(c)) : O();
  };
  for (unsigned k = 0; k < n; ++k) {
    unsigned const op = s.draw(9);
    bool const full = s.flip();
    Code const c = drawValid<M>(s);
    int const key = static_cast<int>(s.draw(5));
    s.note("%u(%d,%d) ", op, full, key);
    engaged += full;
    switch (op) {
    case 0: std::get<1>(ta) = mk((A *)nullptr, full, c); std::get<1>(tb) = mk((B *)nullptr, full, c); break;
    case 1: std::swap(std::get<1>(ta), std::get<2>(ta)); std::swap(std::get<1>(tb), std::get<2>(tb)); break;
    case 2: va = mk((A *)nullptr, full, c); vb = mk((B *)nullptr, full, c); break;
    case 3: va = key; vb = key; break;
    case 4: ma[key] = mk((A *)nullptr, full, c); mb[key] = mk((B *)nullptr, full, c); break;
    case 5: ma.erase(key); mb.erase(key); break;
    case 6: {
      auto ta2 = std::move(ta);
      auto tb2 = std::move(tb);
      ta = std::move(ta2);
      tb = std::move(tb2);
      break;
    }
    case 7: pa.first = mk((A *)nullptr, full, c); pb.first = mk((B *)nullptr, full, c); break;
    default: std::swap(pa.first, pa.second); std::swap(pb.first, pb.second); break;
    }
    PBT_CHECK(obsOpt<M>(std::get<1>(ta)) == obsOpt<M>(std::get<1>(tb)), "%s: tuple element differs", M::name);
    PBT_CHECK(obsOpt<M>(std::get<2>(ta)) == obsOpt<M>(std::get<2>(tb)), "%s: tuple element differs", M::name);
    PBT_CHECK(obsOpt<M>(pa.first) == obsOpt<M>(pb.first) && obsOpt<M>(pa.second) == obsOpt<M>(pb.second), "%s: pair differs", M::name);
    PBT_CHECK(va.index() == vb.index(), "%s: variant differs", M::name);
    if (va.index() == 1) {
      PBT_CHECK(obsOpt<M>(std::get<1>(va)) == obsOpt<M>(std::get<1>(vb)), "%s: variant differs", M::name);
    }
    PBT_CHECK(ma.size() == mb.size(), "%s: map differs", M::name);
    for (auto const & e : ma) {
      PBT_CHECK(mb.count(e.first) == 1 && obsOpt<M>(e.second) == obsOpt<M>(mb[e.first]), "%s: map element %d differs", M::name, e.first);
    }
  }
  if (engaged && engaged < n) {
    s.nontrivial();
  }
}

#define CONT(M)                                                                                                        \
  static pbt::Reg v_##M("vector/" #M, &seq<M, std::vector, true>);                                                     \
  static pbt::Reg d_##M("deque/" #M, &seq<M, std::deque, true>);                                                       \
  static pbt::Reg l_##M("list/" #M, &seq<M, std::list, false>);
#define AGG(M) static pbt::Reg a_##M("aggregate/" #M, &agg<M>);
#if PART == 0
CONT(SepInt)
CONT(SepString)
CONT(SepUnique)
CONT(BitBool)
CONT(BitDouble)
AGG(BitPtr)
AGG(SentIntM1)
#elif PART == 1
CONT(BitPtr)
CONT(AipInt)
CONT(SentIntM1)
CONT(ViaInt)
CONT(MemPodD)
AGG(SepInt)
AGG(SepString)
AGG(MemPodB)
#else
CONT(MemPodISent)
CONT(MemDerivedB)
CONT(CusMemE)
CONT(InpNeg)
CONT(InpStr)
CONT(TrkMemPtr)
AGG(BitBool)
AGG(BitFloat)
AGG(InpIter)
#endif
