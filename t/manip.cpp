// C12: flag manipulators that check the documented protocol on every call. The flag objects own heap memory and are of a
// type of their own (i.e. neither a copy nor a default constructed payload), so that nothing works by accident.
#include "tracked.h"
#include <tiny/optional.h>
namespace pm
{
constexpr unsigned kPayload = 0x50505050u, kFlag = 0x46464646u, kDead = 0x44444444u;

struct Disc
{
  unsigned volatile d = kPayload;
  Disc() noexcept = default;
  Disc(Disc const &) noexcept {}
  Disc & operator=(Disc const &) noexcept { return *this; }
  ~Disc() { d = kDead; }
};

template <class T>
struct Flag
{
  unsigned volatile d = kFlag;
  int * heap = new int(42);
  Flag const * self = this;
  static void const * tag()
  {
    static char const t = 1;
    return &t;
  }
  Flag() noexcept { ::trk::birth(this, tag()); }
  Flag(Flag const &) = delete;
  ~Flag()
  {
    PBT_CHECK(self == this, "protocol: the flag object was relocated");
    ::trk::death(this, tag());
    PBT_CHECK(*heap == 42, "protocol: the flag object is damaged");
    delete heap;
    d = kDead;
  }
};

inline unsigned calls[3];

// T starts with a Disc and registers itself as trk::birth(address, T::tag()).
template <class T>
struct Manip
{
  using F = Flag<T>;
  static void const * at(T const & t) { return static_cast<void const *>(std::addressof(t)); }
  static unsigned disc(T const & t) { return *static_cast<unsigned const volatile *>(at(t)); }
  static bool is_empty(T const & t) noexcept
  {
    static_assert(sizeof(F) <= sizeof(T) && alignof(F) <= alignof(T));
    ++calls[0];
    bool const f = trk::isLive(at(t), F::tag()), p = trk::isLive(at(t), T::tag());
    PBT_CHECK(f || p, "protocol: is_empty() is called on memory that holds neither a flag nor a payload");
    PBT_CHECK(!(f && p), "protocol: is_empty() is called while both a flag and a payload exist");
    PBT_CHECK(disc(t) == (f ? kFlag : kPayload), "protocol: the flag object or payload was overwritten");
    return disc(t) == kFlag;
  }
  static void init_empty_flag(T & t) noexcept
  {
    ++calls[1];
    PBT_CHECK(!trk::isLive(at(t), T::tag()), "protocol: init_empty_flag() is called while the payload exists");
    PBT_CHECK(!trk::isLive(at(t), F::tag()), "protocol: init_empty_flag() is called although the flag exists already");
    ::new (const_cast<void *>(at(t))) F();
  }
  static void invalidate_empty_flag(T & t) noexcept
  {
    ++calls[2];
    PBT_CHECK(!trk::isLive(at(t), T::tag()), "protocol: invalidate_empty_flag() is called while the payload exists");
    PBT_CHECK(trk::isLive(at(t), F::tag()), "protocol: invalidate_empty_flag() is called without a flag");
    static_cast<F *>(const_cast<void *>(at(t)))->~F();
  }
};

// The payload has a trivial destructor, so that only the flag objects are registered. d_ is kPayload in every payload.
template <class T>
struct TrivManip
{
  using F = Flag<T>;
  static void const * at(T const & t) { return static_cast<void const *>(std::addressof(t)); }
  static bool is_empty(T const & t) noexcept
  {
    static_assert(sizeof(F) <= sizeof(T) && alignof(F) <= alignof(T) && std::is_trivially_destructible_v<T>);
    ++calls[0];
    unsigned const d = *static_cast<unsigned const volatile *>(at(t));
    PBT_CHECK(d == (trk::isLive(at(t), F::tag()) ? kFlag : kPayload), "protocol: is_empty() is called on memory that holds neither a flag nor a payload, or they were overwritten");
    return d == kFlag;
  }
  static void init_empty_flag(T & t) noexcept
  {
    ++calls[1];
    PBT_CHECK(!trk::isLive(at(t), F::tag()), "protocol: init_empty_flag() is called although the flag exists already");
    ::new (const_cast<void *>(at(t))) F();
  }
  static void invalidate_empty_flag(T & t) noexcept
  {
    ++calls[2];
    PBT_CHECK(trk::isLive(at(t), F::tag()), "protocol: invalidate_empty_flag() is called without a flag");
    static_cast<F *>(const_cast<void *>(at(t)))->~F();
  }
};

// ---- whole payload
#define ROOM void * room[4] = {};
#define PAYLOAD(NAME, BODY)                                                                                            \
  struct NAME                                                                                                          \
  {                                                                                                                    \
    Disc disc_;                                                                                                        \
    ROOM BODY                                                                                                          \
  };
#define ALL(NAME, NX)                                                                                                  \
  TRK_BASICS(NAME, NX)                                                                                                 \
  TRK_COPY_CTOR(NAME, NX) TRK_MOVE_CTOR(NAME, NX) TRK_COPY_ASG(NAME, NX) TRK_MOVE_ASG(NAME, NX) TRK_INT_ASG(NAME, NX)
#define TRIVPAYLOAD(NAME, NX)                                                                                          \
  struct NAME                                                                                                          \
  {                                                                                                                    \
    unsigned volatile d_ = kPayload;                                                                                   \
    ROOM TRK_TRIV(NAME, NX)                                                                                            \
  };
TRIVPAYLOAD(WTriv, false)
TRIVPAYLOAD(WTrivNx, true)
TRIVPAYLOAD(ITriv, false)
struct MTriv
{
  char c = 'c';
  WTriv m{4};
  TRK_TRIV(MTriv, false)
};
struct ViaBase
{
};
PAYLOAD(WFull, ALL(WFull, false))
PAYLOAD(WNx, ALL(WNx, true))
PAYLOAD(WNxMove, TRK_BASICS(WNxMove, false) TRK_COPY_CTOR(WNxMove, false) TRK_MOVE_CTOR(WNxMove, true) TRK_COPY_ASG(WNxMove, false) TRK_MOVE_ASG(WNxMove, true) TRK_INT_ASG(WNxMove, false))
PAYLOAD(WMoveOnly, TRK_BASICS(WMoveOnly, false) TRK_MOVE_CTOR(WMoveOnly, false) TRK_MOVE_ASG(WMoveOnly, false))
PAYLOAD(WCopyOnly, TRK_BASICS(WCopyOnly, false) TRK_COPY_CTOR(WCopyOnly, false) TRK_COPY_ASG(WCopyOnly, false))
PAYLOAD(WNoAssign, TRK_BASICS(WNoAssign, false) TRK_COPY_CTOR(WNoAssign, false) TRK_MOVE_CTOR(WNoAssign, false) WNoAssign & operator=(WNoAssign const &) = delete;)
PAYLOAD(WPinned, TRK_BASICS(WPinned, false) WPinned(WPinned const &) = delete; WPinned & operator=(WPinned const &) = delete;)
PAYLOAD(IFull, ALL(IFull, false))
PAYLOAD(IPinned, TRK_BASICS(IPinned, false) IPinned(IPinned const &) = delete; IPinned & operator=(IPinned const &) = delete;)
// (found by the enable_if slot of the customization point)
struct Sf
{
  Disc disc_;
  ROOM ALL(Sf, false)
  using IsViaBase = void;
};

// ---- the flag lives in a part of the payload, which the manipulator chooses
struct Part
{
  ALL(Part, false)
  int other = 3;
  Disc disc_;
  void * room[4] = {};
};
struct PartManip
{
  // The part's lifetime is the one of the payload.
  using F = Flag<Part>;
  static void const * part(Part const & t) { return static_cast<void const *>(std::addressof(t.disc_)); }
  static bool is_empty(Part const & t) noexcept
  {
    static_assert(alignof(F) <= alignof(Part));
    ++calls[0];
    bool const f = trk::isLive(part(t), F::tag()), p = trk::isLive(std::addressof(t), Part::tag());
    PBT_CHECK(f || p, "protocol: is_empty() is called on memory that holds neither a flag nor a payload");
    PBT_CHECK(!(f && p), "protocol: is_empty() is called while both a flag and a payload exist");
    return f;
  }
  static void init_empty_flag(Part & t) noexcept
  {
    ++calls[1];
    PBT_CHECK(!trk::isLive(std::addressof(t), Part::tag()), "protocol: init_empty_flag() is called while the payload exists");
    PBT_CHECK(!trk::isLive(part(t), F::tag()), "protocol: init_empty_flag() is called although the flag exists already");
    ::new (const_cast<void *>(part(t))) F();
  }
  static void invalidate_empty_flag(Part & t) noexcept
  {
    ++calls[2];
    PBT_CHECK(!trk::isLive(std::addressof(t), Part::tag()), "protocol: invalidate_empty_flag() is called while the payload exists");
    PBT_CHECK(trk::isLive(part(t), F::tag()), "protocol: invalidate_empty_flag() is called without a flag");
    static_cast<F *>(const_cast<void *>(part(t)))->~F();
  }
};

// ---- member with a manipulator of its own; the payload around it throws
struct FM
{
  Disc disc_;
  void * room[4] = {};
  static void const * tag()
  {
    static char const t = 2;
    return &t;
  }
  FM() { trk::birth(this, tag()); }
  FM(FM const &) { trk::birth(this, tag()); }
  FM & operator=(FM const &) { return *this; }
  ~FM() { trk::death(this, tag()); }
};
// (a member whose construction throws as well)
struct FMT
{
  Disc disc_;
  void * room[4] = {};
  static void const * tag()
  {
    static char const t = 3;
    return &t;
  }
  FMT()
  {
    trk::event(trk::kDefault, 77, true);
    trk::birth(this, tag());
  }
  FMT(FMT const &)
  {
    trk::event(trk::kCopy, 77, true);
    trk::birth(this, tag());
  }
  FMT & operator=(FMT const &) { return *this; }
  ~FMT() { trk::death(this, tag()); }
};
struct MFirst
{
  FM m;
  ALL(MFirst, false)
};
struct MLast
{
  char c = 'c';
  ALL(MLast, false)
  FM m;
};
struct MNx
{
  short s = 3;
  FM m;
  ALL(MNx, true)
};
struct MThrow
{
  char c = 'c';
  FMT m;
  ALL(MThrow, false)
  FM n;
};
struct MPinned
{
  FMT m;
  TRK_BASICS(MPinned, false)
  MPinned(MPinned const &) = delete;
  MPinned & operator=(MPinned const &) = delete;
};

#if __cplusplus >= 202002L
// ---- a sentinel of class type with a destructor: the library's own manipulator has to follow the protocol, too. The
// registry sees flag and payload alike: at most one object at any address.
struct Cls
{
  int v;
  void const * self;
  static void const * tag()
  {
    static char const t = 4;
    return &t;
  }
  constexpr void born(unsigned kind)
  {
    if (!std::is_constant_evaluated()) {
      self = this;
      trk::event(kind, v, kind != trk::kCopy);
      trk::birth(this, tag());
    }
  }
  constexpr void checkUse(char const * what) const
  {
    if (!std::is_constant_evaluated()) {
      trk::use(this, tag(), self, what);
    }
  }
  constexpr Cls()
    : v(0)
    , self(nullptr)
  {
    born(trk::kDefault);
  }
  constexpr Cls(int x)
    : v(x)
    , self(nullptr)
  {
    born(trk::kInt);
  }
  constexpr Cls(int x, int y)
    : v(x * 31 + y)
    , self(nullptr)
  {
    born(trk::kInt2);
  }
  constexpr Cls(int x, int y, int z)
    : Cls(x, y * 31 + z)
  {
  }
  constexpr Cls(int x, int y, int z, int w)
    : Cls(x, y * 31 + z, w)
  {
  }
  constexpr Cls(std::initializer_list<int> il, int y)
    : v(y)
    , self(nullptr)
  {
    for (int e : il) {
      v = v * 7 + e;
    }
    born(trk::kIl);
  }
  constexpr Cls(Cls const & o) noexcept
    : v(o.v)
    , self(nullptr)
  {
    born(trk::kCopy);
  }
  constexpr Cls & operator=(Cls const & o) noexcept
  {
    checkUse("assignment");
    v = o.v;
    return *this;
  }
  constexpr ~Cls()
  {
    if (!std::is_constant_evaluated()) {
      trk::death(this, tag());
    }
  }
  friend constexpr bool operator==(Cls const & a, Cls const & b) noexcept { return a.v == b.v; }
};
struct ClsHolder
{
  char c = 'c';
  Cls m{5};
  ALL(ClsHolder, false)
};
struct SentCls
{
  static constexpr Cls value{-99};
};
#endif
} // namespace pm

#define SPEC(T)                                                                                                        \
  template <>                                                                                                          \
  struct tiny::optional_flag_manipulator<pm::T> : pm::Manip<pm::T>                                                     \
  {                                                                                                                    \
  };
SPEC(WFull)
SPEC(WNx)
SPEC(WNxMove)
SPEC(WMoveOnly)
SPEC(WCopyOnly)
SPEC(WNoAssign)
SPEC(WPinned)
SPEC(FM)
SPEC(FMT)
#define TRIVSPEC(T)                                                                                                    \
  template <>                                                                                                          \
  struct tiny::optional_flag_manipulator<pm::T> : pm::TrivManip<pm::T>                                                 \
  {                                                                                                                    \
  };
TRIVSPEC(WTriv)
TRIVSPEC(WTrivNx)
template <class T>
struct tiny::optional_flag_manipulator<T, typename T::IsViaBase> : pm::Manip<T>
{
};
template <>
struct tiny::optional_flag_manipulator<pm::Part> : pm::PartManip
{
};

#include "hist.h"
#include "heap.h"
static long heapLive() { return gLiveAllocs; }
static int const initHeap = (gHeapLive = &heapLive, 0);

MODE(Whole, pm::WFull, tiny::optional<pm::WFull>)
MODE(WholeNx, pm::WNx, tiny::optional<pm::WNx>)
MODE(WholeNxMove, pm::WNxMove, tiny::optional<pm::WNxMove>)
MODE(WholeMoveOnly, pm::WMoveOnly, tiny::optional<pm::WMoveOnly>)
MODE(WholeCopyOnly, pm::WCopyOnly, tiny::optional<pm::WCopyOnly>)
MODE(WholeNoAssign, pm::WNoAssign, tiny::optional<pm::WNoAssign>)
MODE(WholePinned, pm::WPinned, tiny::optional<pm::WPinned>)
MODE(WholeAip, pm::WFull, tiny::optional_aip<pm::WFull>)
MODE(WholeSfinae, pm::Sf, tiny::optional<pm::Sf>)
MODE(Inplace, pm::IFull, tiny::optional_inplace<pm::IFull, pm::Manip<pm::IFull>>)
MODE(InplacePinned, pm::IPinned, tiny::optional_inplace<pm::IPinned, pm::Manip<pm::IPinned>>)
MODE(InplaceConst, pm::IFull const, tiny::optional_inplace<pm::IFull const, pm::Manip<pm::IFull>>)
MODE(PartOf, pm::Part, tiny::optional<pm::Part>)
MODE(PartInplace, pm::Part, tiny::optional_inplace<pm::Part, pm::PartManip>)
MODE(Triv, pm::WTriv, tiny::optional<pm::WTriv>)
MODE(TrivNx, pm::WTrivNx, tiny::optional<pm::WTrivNx>)
MODE(TrivInplace, pm::ITriv, tiny::optional_inplace<pm::ITriv, pm::TrivManip<pm::ITriv>>)
MODE(TrivMem, pm::MTriv, tiny::optional<pm::MTriv, &pm::MTriv::m>)
MODE(MemFirst, pm::MFirst, tiny::optional<pm::MFirst, &pm::MFirst::m>)
MODE(MemLast, pm::MLast, tiny::optional<pm::MLast, &pm::MLast::m>)
MODE(MemNx, pm::MNx, tiny::optional<pm::MNx, &pm::MNx::m>)
MODE(MemThrow, pm::MThrow, tiny::optional<pm::MThrow, &pm::MThrow::m>)
MODE(MemThrow2, pm::MThrow, tiny::optional<pm::MThrow, &pm::MThrow::n>)
MODE(MemPinned, pm::MPinned, tiny::optional<pm::MPinned, &pm::MPinned::m>)
#if __cplusplus >= 202002L
MODE(ClsVia, pm::Cls, tiny::optional_sentinel_via_type<pm::Cls, pm::SentCls>)
MODE(ClsHelper, pm::Cls, tiny::optional_inplace<pm::Cls, tiny::sentinel_flag_manipulator<pm::Cls, pm::Cls(-99)>>)
MODE(ClsNttp, pm::Cls, tiny::optional<pm::Cls, pm::Cls(-99)>)
MODE(ClsMember, pm::ClsHolder, tiny::optional_sentinel_via_type<pm::ClsHolder, pm::SentCls, &pm::ClsHolder::m>)
#endif

template <class M>
void prop(pbt::Src & s)
{
  HistOptions o;
  o.lifetime = true;
  o.faults = s.chance(2, 3);
  unsigned const before = pm::calls[1];
  history<M>(s, o);
  if (pm::calls[1] > before + 3) {
    s.label("case: init_empty_flag called again after construction");
  }
}

// transform()/and_then()/or_else() whose result uses the manipulator, with callbacks that throw or not.
template <class M>
void resultProp(pbt::Src & s)
{
  using V = typename M::V;
  using Opt = typename M::Opt;
  trk::st.reset();
  long const heapBefore = gHeapLive();
  {
    tiny::optional<int> const src = s.chance(3, 4) ? tiny::optional<int>(static_cast<int>(s.draw(50))) : tiny::optional<int>();
    unsigned const kind = s.draw(4);
    bool const throws = s.flip();
    unsigned const fault = s.draw(4);
    s.note("%s: %s of an %s source, callback %s, fault at %u", M::name, kind < 2 ? "transform" : "and_then", src ? "engaged" : "empty", throws ? "throws" : "returns", fault);
    trk::startOp(fault);
    unsigned calls = 0;
    bool caught = false;
    try {
      if (kind < 2) {
        auto f = [&](int i) -> V {
          ++calls;
          if (throws) {
            throw trk::Fault{1000};
          }
          return V(i + 1);
        };
        auto r = src.transform(f);
        using R = decltype(r);
        static_assert(std::is_same_v<typename R::value_type, V>);
        PBT_CHECK(r.has_value() == src.has_value(), "%s: transform: wrong has_value()", M::name);
        if (r) {
          PBT_CHECK(r->v == *src + 1, "%s: transform: wrong value", M::name);
          if (kind == 1) {
            r.reset();
            PBT_CHECK(!r.has_value(), "%s: reset", M::name);
            r.emplace(3);
          }
        }
      }
      else {
        auto f = [&](int i) -> Opt {
          ++calls;
          if (throws) {
            throw trk::Fault{1000};
          }
          return (i & 1) ? Opt(std::in_place, i) : Opt();
        };
        auto r = src.and_then(f);
        static_assert(std::is_same_v<decltype(r), Opt>);
        PBT_CHECK(r.has_value() == (src.has_value() && (*src & 1)), "%s: and_then: wrong has_value()", M::name);
      }
    }
    catch (trk::Fault const & f) {
      caught = true;
      s.label(f.number == 1000 ? "callback throws" : "payload throws");
    }
    if (throws && src.has_value()) {
      PBT_CHECK(caught, "%s: the exception of the callback is lost", M::name);
    }
    PBT_CHECK(calls == (src.has_value() ? 1u : 0u), "%s: callback called %u times", M::name, calls);
    if (caught || (src.has_value() && kind < 2)) {
      s.nontrivial();
    }
    trk::st.faultAt = 0;
  }
  PBT_CHECK(trk::st.liveCount == 0, "%s: %u payload or flag objects were never destroyed", M::name, trk::st.liveCount);
  PBT_CHECK(gHeapLive() == heapBefore, "%s: heap: %ld allocations leaked", M::name, gHeapLive() - heapBefore);
}

#define X(M) static pbt::Reg reg_##M("manip/" #M, &prop<M>);
#define Y(M) static pbt::Reg regr_##M("manip-result/" #M, &resultProp<M>);
#if PART == 0
X(Whole) X(WholeNx) X(WholeMoveOnly) X(WholeCopyOnly) X(WholeNoAssign) X(WholePinned) X(WholeAip) X(WholeNxMove)
Y(Whole) Y(WholeNx) Y(WholePinned) Y(WholeMoveOnly) Y(WholeSfinae) Y(PartOf)
#elif PART == 1
X(WholeSfinae) X(Inplace) X(InplacePinned) X(InplaceConst) X(PartOf) X(PartInplace) X(Triv) X(TrivNx) X(TrivInplace) X(TrivMem) Y(Triv) Y(TrivNx)
#else
X(MemFirst) X(MemLast) X(MemNx) X(MemThrow) X(MemThrow2) X(MemPinned)
  #if __cplusplus >= 202002L
X(ClsVia) X(ClsHelper) X(ClsNttp) X(ClsMember)
  #endif
#endif
