// The optional kinds ("modes") under test: payload type x storage strategy.
#pragma once
#include "gen.h"
#include <climits>

// ---------------------------------------------------------------- types with custom flag manipulators
namespace cm
{
struct IndexPair
{
  int a, b; // never both negative
  friend bool operator==(IndexPair const & l, IndexPair const & r) noexcept { return l.a == r.a && l.b == r.b; }
  friend bool operator!=(IndexPair const & l, IndexPair const & r) noexcept { return !(l == r); }
  friend bool operator<(IndexPair const & l, IndexPair const & r) noexcept
  {
    return l.a < r.a || (l.a == r.a && l.b < r.b);
  }
  friend bool operator<=(IndexPair const & l, IndexPair const & r) noexcept { return !(r < l); }
  friend bool operator>(IndexPair const & l, IndexPair const & r) noexcept { return r < l; }
  friend bool operator>=(IndexPair const & l, IndexPair const & r) noexcept { return !(l < r); }
};
struct Outer
{
  enum class E : unsigned char
  {
    v0,
    v1,
    v2,
    v3,
    v4,
    sentinel
  };
};
struct Tag
{
};
template <int N>
struct Tagged : Tag
{
  long long v;
  char more[N];
};
struct Holder
{
  short x;
  IndexPair pair;
  double y;
  Outer::E e;
  tiny::optional<int> inner;
};
struct Iter
{
  Iter() noexcept = default;
  explicit Iter(std::size_t i) noexcept
    : valid(true)
    , idx(i)
  {
  }
  bool valid = false;
  std::size_t idx = 0;
  friend bool operator==(Iter const & a, Iter const & b) { return a.valid == b.valid && a.idx == b.idx; }
};
struct IterManip
{
  static bool is_empty(Iter const & i) noexcept { return !i.valid; }
  static void init_empty_flag(Iter & i) noexcept { ::new (static_cast<void *>(&i)) Iter(); }
  static void invalidate_empty_flag(Iter & i) noexcept { i.~Iter(); }
};
// In-place manipulator for a plain int that uses two different "empty" values being even/odd: checks that only
// is_empty() decides.
struct NegativeManip
{
  static bool is_empty(int const & i) noexcept { return i < 0; }
  static void init_empty_flag(int & i) noexcept { ::new (static_cast<void *>(&i)) int(-12345); }
  static void invalidate_empty_flag(int &) noexcept {}
};
// std::string that owns heap memory while empty.
struct StrManip
{
  static std::string const & marker()
  {
    static std::string const m(100, '#');
    return m;
  }
  static bool is_empty(std::string const & s) noexcept { return s.size() == 100 && s[0] == '#'; }
  static void init_empty_flag(std::string & s) noexcept { ::new (static_cast<void *>(&s)) std::string(marker()); }
  static void invalidate_empty_flag(std::string & s) noexcept
  {
    using S = std::string;
    s.~S();
  }
};
} // namespace cm

template <>
struct tiny::optional_flag_manipulator<cm::IndexPair>
{
  static bool is_empty(cm::IndexPair const & p) noexcept { return p.a < 0 && p.b < 0; }
  static void init_empty_flag(cm::IndexPair & p) noexcept
  {
    ::new (static_cast<void *>(&p)) cm::IndexPair{-1, -1};
  }
  static void invalidate_empty_flag(cm::IndexPair & p) noexcept { p.~IndexPair(); }
};
template <>
struct tiny::optional_flag_manipulator<cm::Outer::E>
  : tiny::sentinel_flag_manipulator<cm::Outer::E, cm::Outer::E::sentinel>
{
};
template <class T>
struct tiny::optional_flag_manipulator<T, std::enable_if_t<std::is_base_of_v<cm::Tag, T>>>
{
  static bool is_empty(T const & p) noexcept { return p.v == LLONG_MIN; }
  static void init_empty_flag(T & p) noexcept
  {
    // Only part of the payload: the member v.
    ::new (const_cast<void *>(static_cast<void const *>(&p.v))) long long(LLONG_MIN);
  }
  static void invalidate_empty_flag(T &) noexcept {}
};

template <>
struct G<cm::IndexPair>
{
  static cm::IndexPair val(Code c)
  {
    cm::IndexPair p{G<int>::val(c), static_cast<int>(c.bits % 3) - 1};
    if (p.a < 0 && p.b < 0) {
      p.b = 3;
    }
    return p;
  }
  static uint64_t obs(cm::IndexPair const & p)
  {
    return (static_cast<uint64_t>(static_cast<uint32_t>(p.a)) << 32) | static_cast<uint32_t>(p.b);
  }
};
template <int N>
struct G<cm::Tagged<N>>
{
  static cm::Tagged<N> val(Code c)
  {
    cm::Tagged<N> t;
    t.v = static_cast<long long>(c.bits >> 1) - 3;
    for (int i = 0; i < N; ++i) {
      t.more[i] = static_cast<char>(c.bits + static_cast<unsigned>(i));
    }
    return t;
  }
  static uint64_t obs(cm::Tagged<N> const & t)
  {
    uint64_t h = static_cast<uint64_t>(t.v);
    for (int i = 0; i < N; ++i) {
      h = h * 31 + static_cast<unsigned char>(t.more[i]);
    }
    return h;
  }
};
template <>
struct G<cm::Holder>
{
  static cm::Holder val(Code c)
  {
    return cm::Holder{
        G<short>::val(c),
        G<cm::IndexPair>::val(c),
        G<double>::val(c),
        G<cm::Outer::E>::val(c),
        G<tiny::optional<int>>::val(c)};
  }
  static uint64_t obs(cm::Holder const & h)
  {
    return pbt::mix(G<short>::obs(h.x)) ^ pbt::mix(1 + G<cm::IndexPair>::obs(h.pair)) ^ pbt::mix(2 + G<double>::obs(h.y))
           ^ pbt::mix(3 + G<cm::Outer::E>::obs(h.e)) ^ pbt::mix(4 + G<tiny::optional<int>>::obs(h.inner));
  }
};
template <>
struct G<cm::Iter>
{
  static cm::Iter val(Code c) { return cm::Iter(static_cast<std::size_t>(c.bits)); }
  static uint64_t obs(cm::Iter const & i) { return static_cast<uint64_t>(static_cast<uint32_t>(i.idx)) * 2 + (i.valid ? 1 : 0); }
};

// ---------------------------------------------------------------- sentinels
enum class EClass : short
{
  a,
  b,
  c,
  d,
  e,
  none = -5
};
enum EPlain
{
  ep_a,
  ep_b,
  ep_c,
  ep_d,
  ep_e,
  ep_none = 1000
};
struct SentDouble
{
  static constexpr double value = -1.25;
};
struct SentFloatNan
{
  static constexpr float value = 3.0e38f;
};
struct SentMicro
{
  static constexpr auto value = std::chrono::microseconds::min();
};
struct SentEvil
{
  static constexpr Evil value{-77};
};
struct SentInt
{
  static constexpr long value = -9;
};
struct SentLd
{
  static constexpr long double value = -3.5L;
};
inline int gSentObj;
inline int fnSent(int x)
{
  return x;
}

// A literal class that is a structural type in C++20.
struct Lit
{
  int a;
  char b;
  friend constexpr bool operator==(Lit const & l, Lit const & r) noexcept { return l.a == r.a && l.b == r.b; }
};
template <>
struct G<Lit>
{
  static Lit val(Code c) { return Lit{G<int>::val(c), static_cast<char>(c.bits)}; }
  static uint64_t obs(Lit const & l) { return (static_cast<uint64_t>(static_cast<uint32_t>(l.a)) << 8) | static_cast<unsigned char>(l.b); }
};
struct SentLit
{
  static constexpr Lit value{2, 2};
};

struct ConstMem
{
  int x;
  bool const fb;
  double const fd;
};
template <>
struct G<ConstMem>
{
  static ConstMem val(Code c) { return ConstMem{G<int>::val(c), (c.bits & 1) != 0, G<double>::val(c)}; }
  static uint64_t obs(ConstMem const & m) { return pbt::mix(G<int>::obs(m.x)) ^ G<bool>::obs(m.fb) ^ pbt::mix(G<double>::obs(m.fd)); }
};

// ---------------------------------------------------------------- mode
template <class O, class P_>
struct ModeBase
{
  using Opt = O;
  using P = P_;
  using V = std::remove_cv_t<P_>;
  using S = std::optional<P_>;
  static_assert(std::is_same_v<typename O::value_type, P_>);
  static bool bad(Code) { return false; }
};

#define MODE(NAME, P, ...)                                                                                             \
  struct NAME : ModeBase<__VA_ARGS__, P>                                                                               \
  {                                                                                                                    \
    static constexpr char const * name = #NAME;                                                                        \
  };
// B: predicate over the value v that must not be stored
#define MODEB(NAME, P, B, ...)                                                                                         \
  struct NAME : ModeBase<__VA_ARGS__, P>                                                                               \
  {                                                                                                                    \
    static constexpr char const * name = #NAME;                                                                        \
    static bool bad(Code c)                                                                                            \
    {                                                                                                                  \
      auto const v = G<std::remove_cv_t<P>>::val(c);                                                                   \
      return B;                                                                                                        \
    }                                                                                                                  \
  };

using Fp = int (*)(int);

// group A: separate flag, scalars and library types
MODE(SepInt, int, tiny::optional<int>)
MODE(SepUChar, unsigned char, tiny::optional<unsigned char>)
MODE(SepI64, long long, tiny::optional<long long>)
MODE(SepEnum, EClass, tiny::optional<EClass>)
MODE(SepLongDouble, long double, tiny::optional<long double>)
MODE(SepString, std::string, tiny::optional<std::string>)
MODE(SepVector, std::vector<int>, tiny::optional<std::vector<int>>)
MODE(SepUnique, std::unique_ptr<int>, tiny::optional<std::unique_ptr<int>>)
MODE(SepShared, std::shared_ptr<int>, tiny::optional<std::shared_ptr<int>>)
MODE(SepMemPtr, int MP::*, tiny::optional<int MP::*>)
MODE(SepMemFnPtr, MFP, tiny::optional<MFP>)
MODE(SepConstInt, int const, tiny::optional<int const>)
MODE(SepVolInt, int volatile, tiny::optional<int volatile>)
MODE(SepConstString, std::string const, tiny::optional<std::string const>)
MODE(SepNestTiny, tiny::optional<int>, tiny::optional<tiny::optional<int>>)
MODE(SepNestTinyD, tiny::optional<double>, tiny::optional<tiny::optional<double>>)
MODE(SepNestStd, std::optional<int>, tiny::optional<std::optional<int>>)
MODE(SepPod, Pod, tiny::optional<Pod>)
MODE(SepBig, Big, tiny::optional<Big>)
MODE(SepOver, Over, tiny::optional<Over>)
MODE(SepEmpty, EmptyStruct, tiny::optional<EmptyStruct>)
MODE(SepDerived, Derived, tiny::optional<Derived>)
MODE(SepEvil, Evil, tiny::optional<Evil>)
MODE(SepGreedy, Greedy, tiny::optional<Greedy>)
MODE(SepConstPair, cm::IndexPair const, tiny::optional<cm::IndexPair const>)
#define GROUP_A(X)                                                                                                     \
  X(SepInt) X(SepUChar) X(SepI64) X(SepEnum) X(SepLongDouble) X(SepString) X(SepVector) X(SepUnique) X(SepShared)      \
  X(SepMemPtr) X(SepMemFnPtr) X(SepConstInt) X(SepVolInt) X(SepConstString) X(SepNestTiny) X(SepNestTinyD)             \
  X(SepNestStd) X(SepPod) X(SepBig) X(SepOver) X(SepEmpty) X(SepDerived) X(SepEvil) X(SepGreedy) X(SepConstPair)

// group B: unused bits
MODE(BitBool, bool, tiny::optional<bool>)
MODE(BitDouble, double, tiny::optional<double>)
MODE(BitFloat, float, tiny::optional<float>)
MODE(BitPtr, int *, tiny::optional<int *>)
MODE(BitVoidPtr, void *, tiny::optional<void *>)
MODE(BitCCharPtr, char const *, tiny::optional<char const *>)
MODE(BitPtrPtr, int **, tiny::optional<int **>)
MODE(BitFnPtr, Fp, tiny::optional<Fp>)
MODE(BitConstBool, bool const, tiny::optional<bool const>)
MODE(BitVolBool, bool volatile, tiny::optional<bool volatile>)
MODE(BitConstDouble, double const, tiny::optional<double const>)
MODE(BitVolDouble, double volatile, tiny::optional<double volatile>)
MODE(BitCVFloat, float const volatile, tiny::optional<float const volatile>)
MODE(BitConstPtr, int * const, tiny::optional<int * const>)
MODE(BitVolPtr, int const * volatile, tiny::optional<int const * volatile>)
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  #define GROUP_BAIP(X) // rejected by design
#else
MODE(AipBool, bool, tiny::optional_aip<bool>)
MODE(AipDouble, double, tiny::optional_aip<double>)
MODE(AipFloat, float, tiny::optional_aip<float>)
MODE(AipPtr, int *, tiny::optional_aip<int *>)
  #define GROUP_BAIP(X) X(AipBool) X(AipDouble) X(AipFloat) X(AipPtr)
#endif
MODEB(AipShort, short, v == SHRT_MIN, tiny::optional_aip<short>)
MODEB(AipUShort, unsigned short, v == USHRT_MAX, tiny::optional_aip<unsigned short>)
MODEB(AipInt, int, v == INT_MIN, tiny::optional_aip<int>)
MODEB(AipUInt, unsigned, v == UINT_MAX, tiny::optional_aip<unsigned>)
MODEB(AipLong, long, v == LONG_MIN, tiny::optional_aip<long>)
MODEB(AipULong, unsigned long, v == ULONG_MAX, tiny::optional_aip<unsigned long>)
MODEB(AipLL, long long, v == LLONG_MIN, tiny::optional_aip<long long>)
MODEB(AipULL, unsigned long long, v == ULLONG_MAX, tiny::optional_aip<unsigned long long>)
MODEB(AipConstInt, int const, v == INT_MIN, tiny::optional_aip<int const>)
MODEB(AipChar, char, v == 'a', tiny::optional_aip<char, 'a'>)
#define GROUP_B(X)                                                                                                     \
  X(BitBool) X(BitDouble) X(BitFloat) X(BitPtr) X(BitVoidPtr) X(BitCCharPtr) X(BitPtrPtr) X(BitFnPtr) X(BitConstBool)  \
  X(BitVolBool) X(BitConstDouble) X(BitVolDouble) X(BitCVFloat) X(BitConstPtr) X(BitVolPtr) GROUP_BAIP(X)    \
  X(AipShort) X(AipUShort) X(AipInt) X(AipUInt) X(AipLong) X(AipULong) X(AipLL) X(AipULL)        \
  X(AipConstInt) X(AipChar)

// group C: sentinels
MODEB(SentIntM1, int, v == -1, tiny::optional<int, -1>)
MODEB(SentUIntLit, unsigned, v == 42u, tiny::optional<unsigned, 42>)
MODEB(SentUInt0, unsigned, v == 0u, tiny::optional<unsigned, 0>)
MODEB(SentUCharMax, unsigned char, v == 255, tiny::optional<unsigned char, 255>)
MODEB(SentSCharMin, signed char, v == -128, tiny::optional<signed char, -128>)
MODEB(SentCharX, char, v == 'x', tiny::optional<char, 'x'>)
MODEB(SentChar16, char16_t, v == u'\0', tiny::optional<char16_t, u'\0'>)
MODEB(SentWchar, wchar_t, v == L'w', tiny::optional<wchar_t, L'w'>)
MODEB(SentShort, short, v == -32768, tiny::optional<short, -32768>)
MODEB(SentLLMin, long long, v == LLONG_MIN, tiny::optional<long long, LLONG_MIN>)
MODEB(SentULLMax, unsigned long long, v == ULLONG_MAX, tiny::optional<unsigned long long, ULLONG_MAX>)
MODEB(SentLLSmallLit, long long, v == 3, tiny::optional<long long, 3>)
MODEB(SentBoolT, bool, v == true, tiny::optional<bool, true>)
MODEB(SentBoolF, bool, v == false, tiny::optional<bool, false>)
MODEB(SentEClass, EClass, v == EClass::none, tiny::optional<EClass, EClass::none>)
MODEB(SentEPlain, EPlain, v == ep_none, tiny::optional<EPlain, ep_none>)
MODEB(SentNull, int *, v == nullptr, tiny::optional<int *, nullptr>)
MODEB(SentAddr, int *, v == &gSentObj, tiny::optional<int *, &gSentObj>)
MODEB(SentFn, Fp, v == &fnSent, tiny::optional<Fp, &fnSent>)
MODEB(SentConstInt, int const, v == 2, tiny::optional<int const, 2>)
MODEB(SentVolInt, int volatile, v == 2, tiny::optional<int volatile, 2>)
MODEB(ViaDouble, double, v == -1.25, tiny::optional_sentinel_via_type<double, SentDouble>)
MODEB(ViaFloat, float, v == 3.0e38f, tiny::optional_sentinel_via_type<float, SentFloatNan>)
MODEB(ViaEvil, Evil, v == SentEvil::value, tiny::optional_sentinel_via_type<Evil, SentEvil>)
MODEB(ViaInt, int, v == -9, tiny::optional_sentinel_via_type<int, SentInt>)
MODEB(ViaLit, Lit, v == SentLit::value, tiny::optional_sentinel_via_type<Lit, SentLit>)
MODEB(ViaLd, long double, v == SentLd::value, tiny::optional_sentinel_via_type<long double, SentLd>)
#if __cplusplus >= 202002L
MODEB(SentLit20, Lit, (v == Lit{1, 1}), tiny::optional<Lit, Lit{1, 1}>)
MODEB(SentDouble20, double, v == 0.5, tiny::optional<double, 0.5>)
MODEB(SentFloat20, float, v == -0.5f, tiny::optional<float, -0.5f>)
MODEB(SentChar8, char8_t, v == u8'q', tiny::optional<char8_t, u8'q'>)
MODEB(HelpEvil, Evil, v == Evil(-77), tiny::optional_inplace<Evil, tiny::sentinel_flag_manipulator<Evil, Evil(-77)>>)
MODEB(SentEvil20, Evil, v == Evil(-78), tiny::optional<Evil, Evil(-78)>)
  #define GROUP_C20(X) X(HelpEvil) X(SentEvil20) X(SentLit20) X(SentDouble20) X(SentFloat20) X(SentChar8)
#else
  #define GROUP_C20(X)
#endif
#define GROUP_C(X)                                                                                                     \
  X(SentIntM1) X(SentUIntLit) X(SentUInt0) X(SentUCharMax) X(SentSCharMin) X(SentCharX) X(SentChar16) X(SentWchar)     \
  X(SentShort) X(SentLLMin) X(SentULLMax) X(SentLLSmallLit) X(SentBoolT) X(SentBoolF) X(SentEClass) X(SentEPlain)      \
  X(SentNull) X(SentAddr) X(SentFn) X(SentConstInt) X(SentVolInt) X(ViaDouble) X(ViaFloat) X(ViaEvil)      \
  X(ViaInt) X(ViaLit) X(ViaLd) GROUP_C20(X)

// group D: members and custom manipulators
struct SentM5
{
  static constexpr int value = -5;
};
MODE(MemPodB, Pod, tiny::optional<Pod, &Pod::b>)
MODE(MemPodD, Pod, tiny::optional<Pod, &Pod::d>)
MODE(MemPodF, Pod, tiny::optional<Pod, &Pod::f>)
MODE(MemPodP, Pod, tiny::optional<Pod, &Pod::p>)
MODEB(MemPodISent, Pod, v.i == 3, tiny::optional<Pod, &Pod::i, 3>)
MODEB(MemPodCSent, Pod, v.c == 2, tiny::optional<Pod, &Pod::c, 2>)
MODEB(MemPodBSent, Pod, v.b == true, tiny::optional<Pod, &Pod::b, true>)
MODEB(MemPodVia, Pod, v.i == -5, tiny::optional_sentinel_via_type<Pod, SentM5, &Pod::i>)
MODEB(MemPodViaD, Pod, v.d == -1.25, tiny::optional_sentinel_via_type<Pod, SentDouble, &Pod::d>)
MODEB(MemPodPNull, Pod, v.p == nullptr, tiny::optional<Pod, &Pod::p, nullptr>)
MODE(MemOverD, Over, tiny::optional<Over, &Over::flag>)
MODE(MemDerivedP, Derived, tiny::optional<Derived, &Derived::flagPtr>)
MODE(MemDerivedD, Derived, tiny::optional<Derived, &Derived::flagD>)
MODE(MemDerivedB, Derived, tiny::optional<Derived, &Derived::flagB>)
MODE(MemConstB, ConstMem, tiny::optional<ConstMem, &ConstMem::fb>)
MODE(MemConstD, ConstMem, tiny::optional<ConstMem, &ConstMem::fd>)
MODEB(MemConstX, ConstMem, v.x == 1, tiny::optional<ConstMem, &ConstMem::x, 1>)
MODE(CusPair, cm::IndexPair, tiny::optional<cm::IndexPair>)
MODE(CusEnum, cm::Outer::E, tiny::optional<cm::Outer::E>)
MODE(CusTag3, cm::Tagged<3>, tiny::optional<cm::Tagged<3>>)
MODE(CusTag9, cm::Tagged<9>, tiny::optional<cm::Tagged<9>>)
MODE(CusMemPair, cm::Holder, tiny::optional<cm::Holder, &cm::Holder::pair>)
MODE(CusMemE, cm::Holder, tiny::optional<cm::Holder, &cm::Holder::e>)
MODE(CusMemY, cm::Holder, tiny::optional<cm::Holder, &cm::Holder::y>)
MODEB(CusMemX, cm::Holder, v.x == 4, tiny::optional<cm::Holder, &cm::Holder::x, 4>)
MODEB(CusPairSentAip, cm::Outer::E, v == cm::Outer::E::v2, tiny::optional_aip<cm::Outer::E, cm::Outer::E::v2>)
MODE(AipPair, cm::IndexPair, tiny::optional_aip<cm::IndexPair>)
MODE(InpIter, cm::Iter, tiny::optional_inplace<cm::Iter, cm::IterManip>)
MODEB(InpNeg, int, v < 0, tiny::optional_inplace<int, cm::NegativeManip>)
MODE(InpStr, std::string, tiny::optional_inplace<std::string, cm::StrManip>)
MODEB(InpConstNeg, int const, v < 0, tiny::optional_inplace<int const, cm::NegativeManip>)
#define GROUP_D(X)                                                                                                     \
  X(MemPodB) X(MemPodD) X(MemPodF) X(MemPodP) X(MemPodISent) X(MemPodCSent) X(MemPodBSent) X(MemPodVia) X(MemPodViaD)  \
  X(MemPodPNull) X(MemOverD) X(MemDerivedP) X(MemDerivedD) X(MemDerivedB) X(MemConstB) X(MemConstD) X(MemConstX)       \
  X(CusPair) X(CusEnum) X(CusTag3) X(CusTag9) X(CusMemPair) X(CusMemE) X(CusMemY) X(CusMemX) X(CusPairSentAip)         \
  X(AipPair) X(InpIter) X(InpNeg) X(InpStr) X(InpConstNeg)

// group E: instrumented payloads
struct SentV
{
  static constexpr int value = -4;
};
MODE(TrkFull, trk::Full, tiny::optional<trk::Full>)
MODE(TrkNx, trk::Nx, tiny::optional<trk::Nx>)
MODE(TrkNxMove, trk::NxMove, tiny::optional<trk::NxMove>)
MODE(TrkNxMoveCtorOnly, trk::NxMoveCtorOnly, tiny::optional<trk::NxMoveCtorOnly>)
MODE(TrkNxMoveAsgOnly, trk::NxMoveAsgOnly, tiny::optional<trk::NxMoveAsgOnly>)
MODE(TrkMoveOnly, trk::MoveOnly, tiny::optional<trk::MoveOnly>)
MODE(TrkCopyOnly, trk::CopyOnly, tiny::optional<trk::CopyOnly>)
MODE(TrkNoAssign, trk::NoAssign, tiny::optional<trk::NoAssign>)
MODE(TrkPinned, trk::Pinned, tiny::optional<trk::Pinned>)
MODE(TrkOwnSwap, trk::OwnSwap, tiny::optional<trk::OwnSwap>)
MODE(TrkConst, trk::Full const, tiny::optional<trk::Full const>)
MODE(TrkMemBool, trk::MemBool, tiny::optional<trk::MemBool, &trk::MemBool::flag>)
MODE(TrkMemDouble, trk::MemDouble, tiny::optional<trk::MemDouble, &trk::MemDouble::flag>)
MODE(TrkMemFloat, trk::MemFloat, tiny::optional<trk::MemFloat, &trk::MemFloat::flag>)
MODE(TrkMemPtr, trk::MemPtr, tiny::optional<trk::MemPtr, &trk::MemPtr::flag>)
MODE(TrkMemInt, trk::MemInt, tiny::optional<trk::MemInt, &trk::MemInt::flag, -1>)
MODE(TrkMemVia, trk::MemInt, tiny::optional_sentinel_via_type<trk::MemInt, SentV, &trk::MemInt::v>)
MODE(TrkFullV, trk::Full, tiny::optional<trk::Full, &trk::Full::v, -3>)
MODE(TrkPinnedV, trk::Pinned, tiny::optional<trk::Pinned, &trk::Pinned::v, -3>)
MODE(TrkMoveOnlySelf, trk::MoveOnly, tiny::optional<trk::MoveOnly, &trk::MoveOnly::self>)
MODE(TrkCopyOnlySelf, trk::CopyOnly, tiny::optional<trk::CopyOnly, &trk::CopyOnly::self>)
MODE(TrkTwoCopies, trk::TwoCopies, tiny::optional<trk::TwoCopies>)
MODE(TrkTwoCopiesV, trk::TwoCopies, tiny::optional<trk::TwoCopies, &trk::TwoCopies::v, -3>)
MODE(TrkTriv, trk::TrivDtor, tiny::optional<trk::TrivDtor>)
MODE(TrkTrivNx, trk::TrivDtorNx, tiny::optional<trk::TrivDtorNx>)
MODE(TrkTrivV, trk::TrivDtor, tiny::optional<trk::TrivDtor, &trk::TrivDtor::v, -3>)
MODE(TrkTrivMem, trk::TrivDtorMem, tiny::optional<trk::TrivDtorMem, &trk::TrivDtorMem::flag>)
#define GROUP_E(X)                                                                                                     \
  X(TrkFull) X(TrkNx) X(TrkNxMove) X(TrkNxMoveCtorOnly) X(TrkNxMoveAsgOnly) X(TrkMoveOnly) X(TrkCopyOnly)              \
  X(TrkNoAssign) X(TrkPinned) X(TrkOwnSwap) X(TrkConst) X(TrkMemBool) X(TrkMemDouble) X(TrkMemFloat) X(TrkMemPtr)      \
  X(TrkMemInt) X(TrkMemVia) X(TrkFullV) X(TrkPinnedV) X(TrkMoveOnlySelf) X(TrkCopyOnlySelf)   \
  X(TrkTwoCopies) X(TrkTwoCopiesV) X(TrkTriv) X(TrkTrivNx) X(TrkTrivV) X(TrkTrivMem)

template <class M>
Code drawValid(pbt::Src & s)
{
  Code c = drawCode(s);
  for (unsigned k = 0; k < 6 && M::bad(c); ++k) {
    c = Code{0, (c.bits + 1) % 6};
  }
  return c;
}
