// C07: comparisons of every operand pair against the standard's definition.
#include "pbt.h"
#include <climits>
#include <limits>
#include <string>
#include <tiny/optional.h>
#if __cplusplus >= 202002L
  #include <compare>
#endif

enum Op : unsigned
{
  EQ,
  NE,
  LT,
  LE,
  GT,
  GE
};
inline char const * const opName[] = {"==", "!=", "<", "<=", ">", ">="};

// Results that are not bool.
struct Boolish
{
  int v;
  operator bool() const { return v > 5; }
};

inline unsigned gCalls[6];
inline bool mess(unsigned op, unsigned t, int a, int b)
{
  ++gCalls[op];
  return pbt::mix(op * 1000003u + t * 77u + static_cast<unsigned>(a) * 31u + static_cast<unsigned>(b)) & 1;
}
// Operators that are not negations/mirrors of each other.
template <int N>
struct Odd
{
  int v;
  double flag;
  int sent;
};
#define ODDOP(OPNAME, OPSYM)                                                                                           \
  template <int A, int B>                                                                                              \
  bool operator OPSYM(Odd<A> const & l, Odd<B> const & r)                                                              \
  {                                                                                                                    \
    return mess(OPNAME, A * 8 + B, l.v, r.v);                                                                          \
  }                                                                                                                    \
  template <int A>                                                                                                     \
  bool operator OPSYM(Odd<A> const & l, int r)                                                                         \
  {                                                                                                                    \
    return mess(OPNAME, 100 + A, l.v, r);                                                                              \
  }                                                                                                                    \
  template <int A>                                                                                                     \
  bool operator OPSYM(int l, Odd<A> const & r)                                                                         \
  {                                                                                                                    \
    return mess(OPNAME, 200 + A, l, r.v);                                                                              \
  }
ODDOP(EQ, ==)
ODDOP(NE, !=)
ODDOP(LT, <)
ODDOP(LE, <=)
ODDOP(GT, >)
ODDOP(GE, >=)
struct Fuzzy
{
  int v;
};
#define FUZOP(OPNAME, OPSYM)                                                                                           \
  inline Boolish operator OPSYM(Fuzzy const & l, Fuzzy const & r) { return {mess(OPNAME, 50, l.v, r.v) ? 9 : -9}; }
FUZOP(EQ, ==)
FUZOP(NE, !=)
FUZOP(LT, <)
FUZOP(LE, <=)
FUZOP(GT, >)
FUZOP(GE, >=)

struct NegManip
{
  static bool is_empty(int const & i) noexcept { return i < -1000; }
  static void init_empty_flag(int & i) noexcept { ::new (static_cast<void *>(&i)) int(-5000); }
  static void invalidate_empty_flag(int &) noexcept {}
};
struct S99
{
  static constexpr int value = -99;
};
struct Pod
{
  int v;
  bool flag;
};
inline bool operator==(Pod const & a, Pod const & b) { return a.v == b.v && a.flag == b.flag; }
inline bool operator!=(Pod const & a, Pod const & b) { return !(a == b); }
inline bool operator<(Pod const & a, Pod const & b) { return a.v < b.v; }
inline bool operator<=(Pod const & a, Pod const & b) { return a.v <= b.v; }
inline bool operator>(Pod const & a, Pod const & b) { return a.v > b.v; }
inline bool operator>=(Pod const & a, Pod const & b) { return a.v >= b.v; }

template <class T>
struct MakeVal
{
  static T make(int c) { return static_cast<T>(c); }
};
template <>
struct MakeVal<bool>
{
  static bool make(int c) { return c > 1; }
};
template <>
struct MakeVal<double>
{
  static double make(int c) { return c == 4 ? std::numeric_limits<double>::quiet_NaN() : c == 3 ? -0.0 : c * 0.5; }
};
template <>
struct MakeVal<float>
{
  static float make(int c) { return static_cast<float>(MakeVal<double>::make(c)); }
};
template <>
struct MakeVal<std::string>
{
  static std::string make(int c) { return std::string(c == 4 ? 30 : 1, static_cast<char>('a' + c)); }
};
template <>
struct MakeVal<char const *>
{
  static char const * make(int c)
  {
    static char const * const t[] = {"a", "b", "c", "d", "e"};
    return t[c < 0 || c > 4 ? 0 : c];
  }
};
template <int N>
struct MakeVal<Odd<N>>
{
  static Odd<N> make(int c) { return Odd<N>{c, c * 1.5, c}; }
};
template <>
struct MakeVal<Fuzzy>
{
  static Fuzzy make(int c) { return Fuzzy{c}; }
};
template <>
struct MakeVal<Pod>
{
  static Pod make(int c) { return Pod{c, c > 1}; }
};
inline int gArr[8];
template <>
struct MakeVal<int *>
{
  static int * make(int c) { return c < 0 ? nullptr : &gArr[c]; }
};
template <>
struct MakeVal<int const *>
{
  static int const * make(int c) { return MakeVal<int *>::make(c); }
};

// Operand kinds
template <class T>
struct Val
{
  static constexpr int kind = 1;
  using P = T;
  static T make(bool, int c) { return MakeVal<T>::make(c); }
};
struct Null
{
  static constexpr int kind = 2;
  using P = int;
  static std::nullopt_t make(bool, int) { return std::nullopt; }
};
template <class O>
struct Op_
{
  static constexpr int kind = 0;
  using P = std::remove_cv_t<typename O::value_type>;
  static O make(bool full, int c) { return full ? O(std::in_place, MakeVal<P>::make(c)) : O(); }
};

template <class A, class B>
bool raw(Op op, A const & a, B const & b)
{
  switch (op) {
  case EQ: return a == b;
  case NE: return a != b;
  case LT: return a < b;
  case LE: return a <= b;
  case GT: return a > b;
  default: return a >= b;
  }
}

template <class KA, class KB>
void pairCase(pbt::Src & s)
{
  bool const fa = KA::kind == 1 || (KA::kind == 0 && s.draw(3) != 0);
  bool const fb = KB::kind == 1 || (KB::kind == 0 && s.draw(3) != 0);
  int const ca = static_cast<int>(s.draw(6)) - 1, cb = static_cast<int>(s.draw(6)) - 1;
  auto const pa = MakeVal<typename KA::P>::make(ca);
  auto const pb = MakeVal<typename KB::P>::make(cb);
  auto const a = KA::make(fa, ca);
  auto const b = KB::make(fb, cb);
  s.note("left %s %d, right %s %d; ", fa ? "value" : "empty", ca, fb ? "value" : "empty", cb);
  if (fa && fb) {
    s.nontrivial();
  }
  else if (KA::kind != 2 && KB::kind != 2) {
    s.nontrivial();
  }
  s.label(fa ? (fb ? "both engaged" : "right empty") : (fb ? "left empty" : "both empty"));
  for (unsigned o = 0; o < 6; ++o) {
    Op const op = static_cast<Op>(o);
    // Definition in the standard ([optional.relops], [optional.nullops], [optional.comp.with.t]).
    bool want;
    memset(gCalls, 0, sizeof gCalls);
    if (fa && fb) {
      if constexpr (KA::kind != 2 && KB::kind != 2) {
        want = raw(op, pa, pb);
      }
      else {
        want = false;
      }
    }
    else {
      want = raw(op, static_cast<int>(fa), static_cast<int>(fb));
    }
    unsigned calls[6];
    memcpy(calls, gCalls, sizeof calls);
    memset(gCalls, 0, sizeof gCalls);
    bool const got = raw(op, a, b);
    PBT_CHECK(got == want, "left %s(%d) %s right %s(%d) gives %d, must be %d", fa ? "value" : "empty", ca, opName[o], fb ? "value" : "empty", cb, got, want);
    PBT_CHECK(
        memcmp(calls, gCalls, sizeof calls) == 0,
        "left %s(%d) %s right %s(%d) does not use exactly that operator of the payloads",
        fa ? "value" : "empty", ca, opName[o], fb ? "value" : "empty", cb);
    // Non-const and temporaries
    auto a2 = KA::make(fa, ca);
    PBT_CHECK(raw(op, a2, KB::make(fb, cb)) == want, "%s with temporaries", opName[o]);
    bool direct = false;
    switch (op) {
    case EQ: direct = a2 == KB::make(fb, cb); break;
    case NE: direct = a2 != KB::make(fb, cb); break;
    case LT: direct = a2 < KB::make(fb, cb); break;
    case LE: direct = a2 <= KB::make(fb, cb); break;
    case GT: direct = a2 > KB::make(fb, cb); break;
    default: direct = a2 >= KB::make(fb, cb); break;
    }
    PBT_CHECK(direct == want, "%s with non-const operand", opName[o]);
  }
#ifdef __cpp_lib_three_way_comparison
  if constexpr (KA::kind == 2 || KB::kind == 2) {
    auto const r = a <=> b;
    static_assert(std::is_same_v<decltype(r), std::strong_ordering const>);
    PBT_CHECK((r == 0) == (fa == fb) && (r < 0) == (fa < fb) && (r > 0) == (fa > fb), "<=> with nullopt wrong");
  }
  else if constexpr (std::three_way_comparable_with<typename KA::P, typename KB::P>) {
    auto const r = a <=> b;
    static_assert(std::is_same_v<std::remove_const_t<decltype(r)>, std::compare_three_way_result_t<typename KA::P, typename KB::P>>);
    decltype(r) want = (fa && fb) ? (pa <=> pb) : static_cast<std::compare_three_way_result_t<typename KA::P, typename KB::P>>(fa <=> fb);
    PBT_CHECK(r == want, "left %s(%d) <=> right %s(%d) wrong", fa ? "value" : "empty", ca, fb ? "value" : "empty", cb);
  }
#endif
}

#if __cplusplus >= 202002L
// Payloads whose <=> has each category, different from what their other operators say.
template <class Cat>
struct Sp
{
  int v;
  Cat operator<=>(Sp const & o) const
  {
    // Antisymmetric (the standard itself evaluates value <=> optional with swapped operands), but not transitive.
    int const lo = v < o.v ? v : o.v, hi = v < o.v ? o.v : v;
    uint64_t const h = pbt::mix(static_cast<unsigned>(lo + 5) * 100u + static_cast<unsigned>(hi)) % 4;
    if constexpr (std::is_same_v<Cat, std::partial_ordering>) {
      if (h == 3) {
        return std::partial_ordering::unordered;
      }
    }
    if (h >= 2 || v == o.v) {
      return Cat::equivalent;
    }
    return ((h == 0) == (v < o.v)) ? Cat::less : Cat::greater;
  }
  bool operator==(Sp const & o) const { return ((*this) <=> o) == 0; }
};
template <class Cat>
struct MakeVal<Sp<Cat>>
{
  static Sp<Cat> make(int c) { return Sp<Cat>{c}; }
};
#endif

#define PAIR(NAME, A, B)                                                                                               \
  static pbt::Reg r_##NAME(#NAME, &pairCase<A, B>);
#define T3(N, A, B)                                                                                                    \
  PAIR(N##_ab, A, B)                                                                                                   \
  PAIR(N##_ba, B, A)

// int family
using I0 = Op_<tiny::optional<int>>;
using I1 = Op_<tiny::optional<int, -77>>;
using I2 = Op_<tiny::optional_aip<int>>;
using I3 = Op_<tiny::optional_sentinel_via_type<int, S99>>;
using I4 = Op_<tiny::optional_inplace<int, NegManip>>;
using I5 = Op_<tiny::optional<int const>>;
using I6 = Op_<tiny::optional_aip<long>>;
using I7 = Op_<tiny::optional<short>>;
using I8 = Op_<tiny::optional_inplace<int const, NegManip>>;
using SI = Op_<std::optional<int>>;
using SL = Op_<std::optional<long>>;
using VI = Val<int>;
using VL = Val<long long>;
using VD = Val<double>;
using D0 = Op_<tiny::optional<double>>;
using F0 = Op_<tiny::optional<float>>;
using SD = Op_<std::optional<double>>;
using B0 = Op_<tiny::optional<bool>>;
using VB = Val<bool>;
using SB = Op_<std::optional<bool>>;
#if PART == 0
PAIR(i00, I0, I0) PAIR(i11, I1, I1) PAIR(i22, I2, I2) PAIR(i33, I3, I3) PAIR(i44, I4, I4) PAIR(i55, I5, I5)
T3(i01, I0, I1) T3(i02, I0, I2) T3(i03, I0, I3) T3(i04, I0, I4) T3(i05, I0, I5) T3(i06, I0, I6) T3(i07, I0, I7) T3(i08, I0, I8)
T3(i12, I1, I2) T3(i13, I1, I3) T3(i14, I1, I4) T3(i16, I1, I6) T3(i23, I2, I3) T3(i34, I3, I4) T3(i36, I3, I6) T3(i47, I4, I7) T3(i38, I3, I8)
T3(n0, I0, Null) T3(n1, I1, Null) T3(n2, I2, Null) T3(n3, I3, Null) T3(n4, I4, Null) T3(n5, I5, Null) T3(n8, I8, Null)
#elif PART == 1
T3(v0, I0, VI) T3(v1, I1, VI) T3(v2, I2, VI) T3(v3, I3, VI) T3(v4, I4, VI) T3(v5, I5, VI)
T3(v0l, I0, VL) T3(v3l, I3, VL) T3(v6l, I6, VL) T3(v0d, I0, VD) T3(v7i, I7, VI)
T3(s0, I0, SI) T3(s1, I1, SI) T3(s2, I2, SI) T3(s3, I3, SI) T3(s4, I4, SI) T3(s5, I5, SI) T3(s6, I6, SI) T3(s0l, I0, SL) T3(s3l, I3, SL) T3(s7l, I7, SL)
#elif PART == 2
PAIR(d00, D0, D0) T3(d0v, D0, VD) T3(d0s, D0, SD) T3(d0n, D0, Null) T3(d0f, D0, F0) T3(d0i, D0, I0) T3(f0d, F0, VD) T3(d0vi, D0, VI) T3(d0si, D0, SI)
PAIR(b00, B0, B0) T3(b0v, B0, VB) T3(b0s, B0, SB) T3(b0n, B0, Null)
using P0 = Op_<tiny::optional<int *>>;
using P1 = Op_<tiny::optional<int *, nullptr>>;
using P2 = Op_<tiny::optional<int const *>>;
using VP = Val<int *>;
PAIR(p00, P0, P0) T3(p0v, P0, VP) T3(p0n, P0, Null) T3(p02, P0, P2) T3(p2v, P2, VP)
using St0 = Op_<tiny::optional<std::string>>;
using StS = Op_<std::optional<std::string>>;
using VS = Val<std::string>;
using VC = Val<char const *>;
using C0 = Op_<tiny::optional<char const *>>;
PAIR(s00, St0, St0) T3(s0v, St0, VS) T3(s0c, St0, VC) T3(s0s, St0, StS) T3(s0n, St0, Null) T3(s0o, St0, C0)
using Pd0 = Op_<tiny::optional<Pod>>;
using Pd1 = Op_<tiny::optional<Pod, &Pod::flag>>;
using Pd2 = Op_<tiny::optional<Pod, &Pod::v, -50>>;
using PdS = Op_<std::optional<Pod>>;
using VPd = Val<Pod>;
T3(pd01, Pd0, Pd1) T3(pd12, Pd1, Pd2) T3(pd1v, Pd1, VPd) T3(pd1s, Pd1, PdS) T3(pd2n, Pd2, Null) T3(pd2s, Pd2, PdS)
#else
using O0 = Op_<tiny::optional<Odd<0>>>;
using O1 = Op_<tiny::optional<Odd<1>>>;
using OM = Op_<tiny::optional<Odd<0>, &Odd<0>::flag>>;
using OSn = Op_<tiny::optional<Odd<1>, &Odd<1>::sent, -70>>;
using OS = Op_<std::optional<Odd<0>>>;
using OS2 = Op_<std::optional<Odd<2>>>;
using OI = Op_<tiny::optional_sentinel_via_type<int, S99>>;
using VO = Val<Odd<0>>;
using VO2 = Val<Odd<2>>;
PAIR(o00, O0, O0) PAIR(omm, OM, OM)
T3(o01, O0, O1) T3(o0m, O0, OM) T3(om1, OM, O1) T3(o1s, O1, OSn) T3(oms, OM, OSn)
T3(o0std, O0, OS) T3(omstd, OM, OS) T3(o0std2, O0, OS2) T3(osstd2, OSn, OS2)
T3(o0v, O0, VO) T3(omv, OM, VO) T3(omv2, OM, VO2) T3(o0n, O0, Null) T3(omn, OM, Null)
T3(o0i, O0, VI) T3(omi, OM, VI) T3(o0oi, O0, OI) T3(omoi, OM, I0) T3(o0si, O0, SI) T3(oival, OI, VO)
using Fu = Op_<tiny::optional<Fuzzy>>;
using FuS = Op_<std::optional<Fuzzy>>;
using FuV = Val<Fuzzy>;
PAIR(fu, Fu, Fu) T3(fus, Fu, FuS) T3(fuv, Fu, FuV) T3(fun, Fu, Null)
  #if __cplusplus >= 202002L
using SpP = Sp<std::partial_ordering>;
using SpW = Sp<std::weak_ordering>;
using SpS = Sp<std::strong_ordering>;
    #define SPS(N, T)                                                                                                  \
      using To##N = Op_<tiny::optional<T>>;                                                                            \
      using Tm##N = Op_<tiny::optional<T, &T::v, -60>>;                                                                \
      using Ts##N = Op_<std::optional<T>>;                                                                             \
      using Tv##N = Val<T>;                                                                                            \
      PAIR(sp00##N, To##N, To##N)                                                                                      \
      PAIR(spm##N, Tm##N, Tm##N)                                                                                       \
      T3(sp01##N, To##N, Tm##N) T3(sp0s##N, To##N, Ts##N) T3(sp0v##N, To##N, Tv##N) T3(spmv##N, Tm##N, Tv##N) T3(spmn##N, Tm##N, Null) T3(spms##N, Tm##N, Ts##N)
SPS(P, SpP)
SPS(W, SpW)
SPS(S, SpS)
  #endif
#endif

// Optionals of optionals: compared as the payloads compare.
#if PART == 2
static void nested(pbt::Src & s)
{
  using In = tiny::optional<int>;
  using Out = tiny::optional<In>;
  auto mk = [&] {
    unsigned const k = s.draw(3);
    return k == 0 ? Out() : k == 1 ? Out(std::in_place) : Out(std::in_place, static_cast<int>(s.draw(3)));
  };
  auto rank = [](auto const & o) { return !o ? -2 : !*o ? -1 : **o; };
  Out const a = mk(), b = mk();
  s.nontrivial();
  std::optional<In> sa, sb;
  if (a) {
    sa.emplace(*a);
  }
  if (b) {
    sb.emplace(*b);
  }
  for (unsigned o = 0; o < 6; ++o) {
    bool const want = raw(static_cast<Op>(o), rank(a), rank(b));
    PBT_CHECK(raw(static_cast<Op>(o), a, b) == want, "nested tiny: %s wrong (%d, %d)", opName[o], rank(a), rank(b));
    PBT_CHECK(raw(static_cast<Op>(o), sa, sb) == want, "tiny in std::optional: %s wrong (%d, %d)", opName[o], rank(a), rank(b));
  }
}
static pbt::Reg rNested("nested", &nested);
#endif
