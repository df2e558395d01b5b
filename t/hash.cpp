// C08: std::hash of optionals.
#include "hist.h"
#include <unordered_map>
#include <unordered_set>

struct HKey
{
  int v;
  bool flag;
  int sent;
  friend bool operator==(HKey const & a, HKey const & b) { return a.v == b.v; } // coarser than the bytes
};
inline unsigned gHashCalls;
struct HThrow
{
  int v;
  friend bool operator==(HThrow const & a, HThrow const & b) { return a.v == b.v; }
};
struct NoHash
{
  int v;
};
namespace std
{
template <>
struct hash<HKey>
{
  size_t operator()(HKey const & k) const noexcept
  {
    ++gHashCalls;
    return static_cast<size_t>(k.v) * 2654435761u + 17;
  }
};
template <>
struct hash<HThrow>
{
  size_t operator()(HThrow const & k) const
  {
    if (k.v == 3) {
      throw 42;
    }
    return static_cast<size_t>(k.v) ^ 0x55;
  }
};
} // namespace std
template <>
struct G<HKey>
{
  static HKey val(Code c) { return HKey{static_cast<int>(c.bits % 7), (c.bits & 8) != 0, static_cast<int>(c.bits % 5)}; }
  static uint64_t obs(HKey const & k) { return static_cast<uint64_t>(k.v) * 100 + static_cast<uint64_t>(k.sent) * 2 + k.flag; }
};
template <>
struct G<HThrow>
{
  static HThrow val(Code c) { return HThrow{static_cast<int>(c.bits % 7)}; }
  static uint64_t obs(HThrow const & k) { return static_cast<uint64_t>(k.v); }
};
MODE(HSep, HKey, tiny::optional<HKey>)
MODE(HMem, HKey, tiny::optional<HKey, &HKey::flag>)
MODE(HMemS, HKey, tiny::optional<HKey, &HKey::sent, -7>)
MODE(HConst, HKey const, tiny::optional<HKey const>)
MODE(HThr, HThrow, tiny::optional<HThrow>)
MODE(InpStrH, std::string, tiny::optional_inplace<std::string, cm::StrManip>)
struct SentS
{
  static constexpr int value = -4;
};
MODE(HVia, HKey, tiny::optional_sentinel_via_type<HKey, SentS, &HKey::sent>)

template <class T>
inline constexpr bool hashEnabled = std::is_default_constructible_v<std::hash<T>> && std::is_copy_constructible_v<std::hash<T>> && std::is_invocable_v<std::hash<T> const &, T const &>;

template <class M>
size_t payloadHash(typename M::P const & p)
{
  return std::hash<std::remove_const_t<typename M::P>>{}(p);
}

// An optional in the wanted state, reached by a random history.
template <class M, class O>
void reach(pbt::Src & s, O & o, bool full, Code c, Code c2)
{
  using V = typename M::V;
  for (unsigned n = s.draw(4); n > 0; --n) {
    switch (s.draw(4)) {
    case 0: o.emplace(G<V>::val(c2)); break;
    case 1: o.reset(); break;
    case 2: {
      if constexpr (std::is_copy_assignable_v<typename M::P>) {
        O t(o);
        o = std::move(t);
      }
      break;
    }
    default: o = std::nullopt; break;
    }
  }
  if (full) {
    o.emplace(G<V>::val(c));
  }
  else if (s.flip()) {
    o.reset();
  }
  else {
    o = std::nullopt;
  }
}

template <class M>
void hashes(pbt::Src & s)
{
  using O = typename M::Opt;
  using S = typename M::S;
  static_assert(hashEnabled<O>);
  bool const f1 = s.draw(3) != 0, f2 = s.draw(3) != 0;
  Code const c1 = drawValid<M>(s), c2 = s.flip() ? c1 : drawValid<M>(s), c3 = drawValid<M>(s);
  static typename std::aligned_storage<sizeof(O), alignof(O)>::type m1, m2;
  memset(&m1, static_cast<int>(s.draw(256)), sizeof m1);
  memset(&m2, static_cast<int>(s.draw(256)), sizeof m2);
  O & a = *::new (&m1) O();
  O & b = *::new (&m2) O();
  reach<M>(s, a, f1, c1, c3);
  reach<M>(s, b, f2, c2, c3);
  s.note("%s %s", f1 ? "engaged" : "empty", f2 ? "engaged" : "empty");
  s.nontrivial();
  O const & ca = a;
  size_t ha = 0, hb = 0;
  int thrown = 0;
  try {
    gHashCalls = 0;
    ha = std::hash<O>{}(ca);
    if constexpr (std::is_same_v<typename M::V, HKey>) {
      PBT_CHECK(gHashCalls == (f1 ? 1u : 0u), "payload hash called %u times", gHashCalls);
    }
    hb = std::hash<O>{}(b);
  }
  catch (int) {
    thrown = 1;
  }
  int thrownRef = 0;
  size_t ra = 0, rb = 0;
  try {
    ra = f1 ? payloadHash<M>(*ca) : 0;
    rb = f2 ? payloadHash<M>(*b) : 0;
    S sa, sb;
    if (f1) {
      sa.emplace(*ca);
      PBT_CHECK(std::hash<S>{}(sa) == ra, "oracle: std::hash of std::optional is not the payload's");
    }
  }
  catch (int) {
    thrownRef = 1;
  }
  PBT_CHECK(thrown == thrownRef, "%s: exception of the payload's hash", M::name);
  if (!thrown) {
    if (f1) {
      PBT_CHECK(ha == ra, "%s: hash of an engaged optional is not the payload's hash", M::name);
    }
    if (f2) {
      PBT_CHECK(hb == rb, "%s: hash of an engaged optional is not the payload's hash", M::name);
    }
    O const fresh;
    size_t const he = std::hash<O>{}(fresh);
    if (!f1) {
      PBT_CHECK(ha == he, "%s: empty optionals hash differently", M::name);
    }
    if (!f2) {
      PBT_CHECK(hb == he, "%s: empty optionals hash differently", M::name);
    }
    if constexpr (hasEq<typename M::P>) {
      if (ca == b) {
        PBT_CHECK(ha == hb, "%s: equal optionals have different hashes", M::name);
      }
    }
    PBT_CHECK(std::hash<O>{}(O(ca)) == ha, "%s: a copy has a different hash", M::name);
  }
  a.~O();
  b.~O();
}

template <class M>
void table(pbt::Src & s)
{
  using O = typename M::Opt;
  using S = typename M::S;
  std::unordered_set<O> x;
  std::unordered_set<S> y;
  std::unordered_map<O, int> mx;
  std::unordered_map<S, int> my;
  unsigned const n = 1 + s.draw(40);
  unsigned hits = 0, empties = 0;
  for (unsigned k = 0; k < n; ++k) {
    bool const full = s.draw(4) != 0;
    Code const c = drawValid<M>(s);
    auto const p = G<typename M::V>::val(c);
    O const o = full ? O(std::in_place, p) : O();
    S const t = full ? S(std::in_place, p) : S();
    empties += !full;
    switch (s.draw(5)) {
    case 0:
    case 1: {
      auto const rx = x.insert(o);
      auto const ry = y.insert(t);
      PBT_CHECK(rx.second == ry.second, "%s: insert() disagrees with a set of std::optional", M::name);
      mx[o] += 1;
      my[t] += 1;
      PBT_CHECK(mx[o] == my[t], "%s: map value disagrees", M::name);
      break;
    }
    case 2: {
      size_t const ex = x.erase(o), ey = y.erase(t);
      hits += ex != 0;
      PBT_CHECK(ex == ey, "%s: erase() disagrees with a set of std::optional", M::name);
      mx.erase(o);
      my.erase(t);
      break;
    }
    case 3:
      PBT_CHECK(x.count(o) == y.count(t), "%s: count() disagrees with a set of std::optional", M::name);
      hits += y.count(t) != 0;
      break;
    default:
      x.rehash(s.draw(100));
      y.rehash(s.draw(100));
      break;
    }
    PBT_CHECK(x.size() == y.size() && mx.size() == my.size(), "%s: sizes disagree", M::name);
  }
  for (auto const & t : y) {
    O const o = t ? O(std::in_place, *t) : O();
    if (t == t) {
      PBT_CHECK(x.count(o) == 1, "%s: an element is not found", M::name);
    }
  }
  if (hits && empties) {
    s.nontrivial();
  }
}

// Enabled exactly when std::optional's hash is enabled.
#define SAME(...) static_assert(hashEnabled<typename __VA_ARGS__::Opt> == hashEnabled<typename __VA_ARGS__::S>, #__VA_ARGS__);
#define OFF(...) static_assert(!hashEnabled<__VA_ARGS__>);
SAME(SepInt) SAME(SepEnum) SAME(SepUnique) SAME(SepPod) SAME(SepVector) SAME(SepVolInt) SAME(SepConstInt) SAME(SepMemPtr) SAME(SepNestTiny) SAME(SepNestStd)
SAME(BitBool) SAME(BitConstDouble) SAME(BitVolDouble) SAME(BitPtr) SAME(BitFnPtr) SAME(SentIntM1) SAME(SentEClass) SAME(SentConstInt) SAME(ViaInt) SAME(ViaLit) SAME(MemPodB) SAME(MemPodISent)
SAME(CusPair) SAME(CusEnum) SAME(InpStr) SAME(InpNeg) SAME(InpConstNeg) SAME(InpIter) SAME(HSep) SAME(HMem) SAME(HVia)
OFF(tiny::optional<NoHash>) OFF(tiny::optional<NoHash, &NoHash::v, 3>) OFF(tiny::optional_sentinel_via_type<NoHash, SentS, &NoHash::v>)

#define H(M) static pbt::Reg h_##M("hash/" #M, &hashes<M>);
#define T(M) static pbt::Reg t_##M("table/" #M, &table<M>, 30);
#if PART == 0
H(SepInt) H(SepUChar) H(SepEnum) H(SepString) H(SepConstInt) H(SepConstString) H(SepShared) H(SepNestTiny) H(SepNestStd)
H(BitBool) H(BitDouble) H(BitFloat) H(BitPtr) H(BitVoidPtr) H(BitFnPtr) H(BitConstDouble) H(BitConstPtr) H(AipInt) H(AipULL)
H(SentIntM1) H(SentUCharMax) H(SentEClass) H(SentNull) H(SentConstInt) H(ViaDouble) H(ViaInt)
H(CusEnum) H(InpNeg) H(InpStr) H(InpConstNeg) H(HSep) H(HMem) H(HMemS) H(HVia) H(HConst) H(HThr)
#else
T(SepInt) T(SepString) T(SepEnum) T(BitBool) T(BitDouble) T(BitFloat) T(BitPtr) T(AipInt) T(SentIntM1) T(SentEClass) T(SentNull) T(ViaInt) T(CusEnum)
T(InpNeg) T(InpStr) T(HSep) T(HMem) T(HMemS) T(HVia)
#endif
