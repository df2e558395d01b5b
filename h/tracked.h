// Instrumented payload types: every construction, assignment, destruction is checked against a registry of live
// objects, recorded in a trace, and can be made to throw at the k-th potentially throwing event.
#pragma once
#include "pbt.h"
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <new>
#include <utility>

namespace trk
{
enum Kind : unsigned
{
  kDefault = 1,
  kInt,
  kInt2,
  kIl,
  kCopy,
  kMove,
  kAsgCopy,
  kAsgMove,
  kAsgInt,
  kDtor,
  kSwap,
  kCallback,
  kCompare,
  kHash,
  kConvert,
  kCopyNonConst,
  kAsgNonConst
};

struct Fault
{
  unsigned number;
};

struct Event
{
  unsigned kind;
  int v;
};

constexpr unsigned kMaxTrace = 192;
constexpr unsigned kMaxLive = 512;

// What the two sides (std::optional and tiny::optional) do is recorded separately.
struct State
{
  Event trace[kMaxTrace];
  unsigned traceLen = 0;
  unsigned faultAt = 0; // 0: never
  unsigned throwEvents = 0; // number of potentially throwing events so far
  struct Entry
  {
    void const * p;
    void const * type;
  };
  Entry live[kMaxLive];
  unsigned liveCount = 0;
  bool checkLifetime = true; // false: lifetime errors are not reported (they belong to another property)
  bool traceOn = true;

  void reset()
  {
    traceLen = 0;
    faultAt = 0;
    throwEvents = 0;
    liveCount = 0;
    traceOn = true;
  }
};

inline State st;

inline void startOp(unsigned faultAt)
{
  st.traceLen = 0;
  st.throwEvents = 0;
  st.faultAt = faultAt;
}

inline void event(unsigned kind, int v, bool mayThrow)
{
  if (st.traceOn && st.traceLen < kMaxTrace) {
    st.trace[st.traceLen++] = Event{kind, v};
  }
  if (mayThrow) {
    if (++st.throwEvents == st.faultAt) {
      throw Fault{st.faultAt};
    }
  }
}

inline bool isLive(void const * p, void const * type)
{
  for (unsigned i = 0; i < st.liveCount; ++i) {
    if (st.live[i].p == p && st.live[i].type == type) {
      return true;
    }
  }
  return false;
}

inline void birth(void const * p, void const * type)
{
  if (st.checkLifetime) {
    PBT_CHECK(!isLive(p, type), "lifetime: an object is constructed over a live object");
  }
  if (st.liveCount < kMaxLive) {
    st.live[st.liveCount++] = {p, type};
  }
}

inline void death(void const * p, void const * type)
{
  for (unsigned i = 0; i < st.liveCount; ++i) {
    if (st.live[i].p == p && st.live[i].type == type) {
      st.live[i] = st.live[--st.liveCount];
      return;
    }
  }
  if (st.checkLifetime) {
    pbt::fail("lifetime: an object that is not alive is destroyed");
  }
}

inline void use(void const * p, void const * type, void const * self, char const * what)
{
  if (st.checkLifetime) {
    PBT_CHECK(isLive(p, type), "lifetime: %s of an object that is not alive", what);
    PBT_CHECK(self == p, "lifetime: %s of an object that was relocated bytewise", what);
  }
}

inline void useTriv(void const * p, void const * self, char const * what)
{
  if (st.checkLifetime) {
    PBT_CHECK(self == p, "lifetime: %s of an object that was never constructed or relocated bytewise", what);
  }
}

// Common implementation, CRTP-free: the derived types forward.
struct Core
{
  int v;
  void const * self;
};

#define TRK_BASICS(NAME, NX)                                                                                           \
  int v;                                                                                                               \
  void const * self;                                                                                                   \
  static void const * tag()                                                                                            \
  {                                                                                                                    \
    static char const t = 0;                                                                                           \
    return &t;                                                                                                         \
  }                                                                                                                    \
  NAME() noexcept(NX)                                                                                                  \
    : v(0)                                                                                                             \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    ::trk::event(::trk::kDefault, 0, !NX);                                                                             \
    ::trk::birth(this, tag());                                                                                         \
  }                                                                                                                    \
  NAME(int x) noexcept(NX)                                                                                             \
    : v(x)                                                                                                             \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    ::trk::event(::trk::kInt, x, !NX);                                                                                 \
    ::trk::birth(this, tag());                                                                                         \
  }                                                                                                                    \
  NAME(int x, int y, int z, int w = 0) noexcept(NX)                                                                    \
    : v((x % 1000) * 31 + y * 7 + z * 3 + w)                                                                           \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    ::trk::event(::trk::kInt2, v, !NX);                                                                                \
    ::trk::birth(this, tag());                                                                                         \
  }                                                                                                                    \
  NAME(int x, int y) noexcept(NX)                                                                                      \
    : v(x * 31 + y)                                                                                                    \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    ::trk::event(::trk::kInt2, v, !NX);                                                                                \
    ::trk::birth(this, tag());                                                                                         \
  }                                                                                                                    \
  NAME(std::initializer_list<int> il, int y) noexcept(NX)                                                              \
    : v(y)                                                                                                             \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    for (int e : il) {                                                                                                 \
      v = v * 7 + e;                                                                                                   \
    }                                                                                                                  \
    ::trk::event(::trk::kIl, v, !NX);                                                                                  \
    ::trk::birth(this, tag());                                                                                         \
  }                                                                                                                    \
  ~NAME()                                                                                                              \
  {                                                                                                                    \
    ::trk::event(::trk::kDtor, v, false);                                                                              \
    ::trk::use(this, tag(), self, "destruction");                                                                      \
    ::trk::death(this, tag());                                                                                         \
    v = -0x0dead;                                                                                                      \
    self = nullptr;                                                                                                    \
  }                                                                                                                    \
  void checkUse(char const * what) const { ::trk::use(this, tag(), self, what); }                                      \
  friend bool operator==(NAME const & a, NAME const & b)                                                               \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 0, true);                                                                            \
    return a.v == b.v;                                                                                                 \
  }                                                                                                                    \
  friend bool operator!=(NAME const & a, NAME const & b)                                                               \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 1, true);                                                                            \
    return a.v != b.v;                                                                                                 \
  }                                                                                                                    \
  friend bool operator<(NAME const & a, NAME const & b)                                                                \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 2, true);                                                                            \
    return a.v < b.v;                                                                                                  \
  }                                                                                                                    \
  friend bool operator<=(NAME const & a, NAME const & b)                                                               \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 3, true);                                                                            \
    return a.v <= b.v;                                                                                                 \
  }                                                                                                                    \
  friend bool operator>(NAME const & a, NAME const & b)                                                                \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 4, true);                                                                            \
    return a.v > b.v;                                                                                                  \
  }                                                                                                                    \
  friend bool operator>=(NAME const & a, NAME const & b)                                                               \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 5, true);                                                                            \
    return a.v >= b.v;                                                                                                 \
  }

#define TRK_COPY_CTOR(NAME, NX)                                                                                        \
  NAME(NAME const & o) noexcept(NX)                                                                                    \
    : v(o.v)                                                                                                           \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    o.checkUse("copy");                                                                                                \
    ::trk::event(::trk::kCopy, v, !NX);                                                                                \
    ::trk::birth(this, tag());                                                                                         \
  }
#define TRK_MOVE_CTOR(NAME, NX)                                                                                        \
  NAME(NAME && o) noexcept(NX)                                                                                         \
    : v(o.v)                                                                                                           \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    o.checkUse("move");\
    ::trk::event(::trk::kMove, v, !NX);                                                                                \
    o.v = 1000000 + (o.v % 1000000);                                                                                   \
    ::trk::birth(this, tag());                                                                                         \
  }
#define TRK_COPY_ASG(NAME, NX)                                                                                         \
  NAME & operator=(NAME const & o) noexcept(NX)                                                                        \
  {                                                                                                                    \
    checkUse("assignment");                                                                                            \
    o.checkUse("copy assignment");                                                                                     \
    ::trk::event(::trk::kAsgCopy, o.v, !NX);                                                                           \
    v = o.v;                                                                                                           \
    return *this;                                                                                                      \
  }
#define TRK_MOVE_ASG(NAME, NX)                                                                                         \
  NAME & operator=(NAME && o) noexcept(NX)                                                                             \
  {                                                                                                                    \
    checkUse("assignment");                                                                                            \
    o.checkUse("move assignment");                                                                                     \
    ::trk::event(::trk::kAsgMove, o.v, !NX);                                                                           \
    v = o.v;                                                                                                           \
    if (this != &o) {                                                                                                  \
      o.v = 1000000 + (o.v % 1000000);                                                                                 \
    }                                                                                                                  \
    return *this;                                                                                                      \
  }
#define TRK_INT_ASG(NAME, NX)                                                                                          \
  NAME & operator=(int x) noexcept(NX)                                                                                 \
  {                                                                                                                    \
    checkUse("assignment");                                                                                            \
    ::trk::event(::trk::kAsgInt, x, !NX);                                                                              \
    v = x;                                                                                                             \
    return *this;                                                                                                      \
  }

// The same with a trivial destructor (nothing to register then, but relocation and the events are still seen).
#define TRK_TRIV_BASICS(NAME, NX)                                                                                           \
  int v;                                                                                                               \
  void const * self;                                                                                                   \
  static void const * tag()                                                                                            \
  {                                                                                                                    \
    static char const t = 0;                                                                                           \
    return &t;                                                                                                         \
  }                                                                                                                    \
  NAME() noexcept(NX)                                                                                                  \
    : v(0)                                                                                                             \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    ::trk::event(::trk::kDefault, 0, !NX);                                                                             \
  }                                                                                                                    \
  NAME(int x) noexcept(NX)                                                                                             \
    : v(x)                                                                                                             \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    ::trk::event(::trk::kInt, x, !NX);                                                                                 \
  }                                                                                                                    \
  NAME(int x, int y, int z, int w = 0) noexcept(NX)                                                                    \
    : v((x % 1000) * 31 + y * 7 + z * 3 + w)                                                                           \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    ::trk::event(::trk::kInt2, v, !NX);                                                                                \
  }                                                                                                                    \
  NAME(int x, int y) noexcept(NX)                                                                                      \
    : v(x * 31 + y)                                                                                                    \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    ::trk::event(::trk::kInt2, v, !NX);                                                                                \
  }                                                                                                                    \
  NAME(std::initializer_list<int> il, int y) noexcept(NX)                                                              \
    : v(y)                                                                                                             \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    for (int e : il) {                                                                                                 \
      v = v * 7 + e;                                                                                                   \
    }                                                                                                                  \
    ::trk::event(::trk::kIl, v, !NX);                                                                                  \
  }                                                                                                                    \
  void checkUse(char const * what) const { ::trk::useTriv(this, self, what); }                                      \
  friend bool operator==(NAME const & a, NAME const & b)                                                               \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 0, true);                                                                            \
    return a.v == b.v;                                                                                                 \
  }                                                                                                                    \
  friend bool operator!=(NAME const & a, NAME const & b)                                                               \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 1, true);                                                                            \
    return a.v != b.v;                                                                                                 \
  }                                                                                                                    \
  friend bool operator<(NAME const & a, NAME const & b)                                                                \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 2, true);                                                                            \
    return a.v < b.v;                                                                                                  \
  }                                                                                                                    \
  friend bool operator<=(NAME const & a, NAME const & b)                                                               \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 3, true);                                                                            \
    return a.v <= b.v;                                                                                                 \
  }                                                                                                                    \
  friend bool operator>(NAME const & a, NAME const & b)                                                                \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 4, true);                                                                            \
    return a.v > b.v;                                                                                                  \
  }                                                                                                                    \
  friend bool operator>=(NAME const & a, NAME const & b)                                                               \
  {                                                                                                                    \
    a.checkUse("comparison");                                                                                          \
    b.checkUse("comparison");                                                                                          \
    ::trk::event(::trk::kCompare, 5, true);                                                                            \
    return a.v >= b.v;                                                                                                 \
  }

#define TRK_TRIV_COPY_CTOR(NAME, NX)                                                                                        \
  NAME(NAME const & o) noexcept(NX)                                                                                    \
    : v(o.v)                                                                                                           \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    o.checkUse("copy");                                                                                                \
    ::trk::event(::trk::kCopy, v, !NX);                                                                                \
  }
#define TRK_TRIV_MOVE_CTOR(NAME, NX)                                                                                        \
  NAME(NAME && o) noexcept(NX)                                                                                         \
    : v(o.v)                                                                                                           \
    , self(this)                                                                                                       \
  {                                                                                                                    \
    o.checkUse("move");\
    ::trk::event(::trk::kMove, v, !NX);                                                                                \
    o.v = 1000000 + (o.v % 1000000);                                                                                   \
  }

// Copyable and movable, everything can throw.
struct Full
{
  TRK_BASICS(Full, false)
  TRK_COPY_CTOR(Full, false)
  TRK_MOVE_CTOR(Full, false)
  TRK_COPY_ASG(Full, false)
  TRK_MOVE_ASG(Full, false)
  TRK_INT_ASG(Full, false)
};

// Nothing throws.
struct Nx
{
  TRK_BASICS(Nx, true)
  TRK_COPY_CTOR(Nx, true)
  TRK_MOVE_CTOR(Nx, true)
  TRK_COPY_ASG(Nx, true)
  TRK_MOVE_ASG(Nx, true)
  TRK_INT_ASG(Nx, true)
};

// Moves cannot throw, copies can (the usual type).
struct NxMove
{
  TRK_BASICS(NxMove, false)
  TRK_COPY_CTOR(NxMove, false)
  TRK_MOVE_CTOR(NxMove, true)
  TRK_COPY_ASG(NxMove, false)
  TRK_MOVE_ASG(NxMove, true)
  TRK_INT_ASG(NxMove, false)
};

// Move construction cannot throw but move assignment can, and vice versa.
struct NxMoveCtorOnly
{
  TRK_BASICS(NxMoveCtorOnly, false)
  TRK_COPY_CTOR(NxMoveCtorOnly, false)
  TRK_MOVE_CTOR(NxMoveCtorOnly, true)
  TRK_COPY_ASG(NxMoveCtorOnly, true)
  TRK_MOVE_ASG(NxMoveCtorOnly, false)
  TRK_INT_ASG(NxMoveCtorOnly, true)
};

struct NxMoveAsgOnly
{
  TRK_BASICS(NxMoveAsgOnly, false)
  TRK_COPY_CTOR(NxMoveAsgOnly, true)
  TRK_MOVE_CTOR(NxMoveAsgOnly, false)
  TRK_COPY_ASG(NxMoveAsgOnly, false)
  TRK_MOVE_ASG(NxMoveAsgOnly, true)
  TRK_INT_ASG(NxMoveAsgOnly, false)
};

struct MoveOnly
{
  TRK_BASICS(MoveOnly, false)
  TRK_MOVE_CTOR(MoveOnly, false)
  TRK_MOVE_ASG(MoveOnly, false)
  MoveOnly(MoveOnly const &) = delete;
  MoveOnly & operator=(MoveOnly const &) = delete;
};

// No move operations declared: rvalues are copied.
struct CopyOnly
{
  TRK_BASICS(CopyOnly, false)
  TRK_COPY_CTOR(CopyOnly, false)
  TRK_COPY_ASG(CopyOnly, false)
};

// Copy/move constructible, but not assignable.
struct NoAssign
{
  TRK_BASICS(NoAssign, false)
  TRK_COPY_CTOR(NoAssign, false)
  TRK_MOVE_CTOR(NoAssign, false)
  NoAssign & operator=(NoAssign const &) = delete;
  NoAssign & operator=(NoAssign &&) = delete;
};

// Neither copyable nor movable.
struct Pinned
{
  TRK_BASICS(Pinned, false)
  Pinned(Pinned const &) = delete;
  Pinned & operator=(Pinned const &) = delete;
};

// Own swap found by ADL.
struct OwnSwap
{
  TRK_BASICS(OwnSwap, false)
  TRK_COPY_CTOR(OwnSwap, false)
  TRK_MOVE_CTOR(OwnSwap, false)
  TRK_COPY_ASG(OwnSwap, false)
  TRK_MOVE_ASG(OwnSwap, false)
  TRK_INT_ASG(OwnSwap, false)
  friend void swap(OwnSwap & a, OwnSwap & b)
  {
    a.checkUse("swap");
    b.checkUse("swap");
    event(kSwap, a.v * 31 + b.v, true);
    int const t = a.v;
    a.v = b.v;
    b.v = t;
  }
};

// Distinguishes copies from const and from non-const objects (the latter even change their source).
struct TwoCopies
{
  TRK_BASICS(TwoCopies, false)
  TRK_COPY_CTOR(TwoCopies, false)
  TRK_MOVE_CTOR(TwoCopies, false)
  TRK_COPY_ASG(TwoCopies, false)
  TRK_MOVE_ASG(TwoCopies, false)
  TRK_INT_ASG(TwoCopies, false)
  TwoCopies(TwoCopies & o)
    : v(o.v)
    , self(this)
  {
    o.checkUse("copy");
    event(kCopyNonConst, v, true);
    o.v = 2000000 + (o.v % 1000000);
    birth(this, tag());
  }
  TwoCopies & operator=(TwoCopies & o)
  {
    checkUse("assignment");
    o.checkUse("copy assignment");
    event(kAsgNonConst, o.v, true);
    v = o.v;
    if (this != &o) {
      o.v = 2000000 + (o.v % 1000000);
    }
    return *this;
  }
};

// Trivially destructible, all else can throw (or nothing can).
#define TRK_TRIV(NAME, NX)                                                                                             \
  TRK_TRIV_BASICS(NAME, NX)                                                                                            \
  TRK_TRIV_COPY_CTOR(NAME, NX) TRK_TRIV_MOVE_CTOR(NAME, NX) TRK_COPY_ASG(NAME, NX) TRK_MOVE_ASG(NAME, NX) TRK_INT_ASG(NAME, NX)
struct TrivDtor
{
  TRK_TRIV(TrivDtor, false)
};
struct TrivDtorNx
{
  TRK_TRIV(TrivDtorNx, true)
};
struct TrivDtorMem
{
  double flag = 1.5;
  TRK_TRIV(TrivDtorMem, false)
};
static_assert(std::is_trivially_destructible_v<TrivDtor> && std::is_trivially_destructible_v<TrivDtorMem>);

// Full with the empty flag stored in a member (at an offset, before or behind the rest).
#define TRK_MEMBER_TYPE(NAME, BEFORE, AFTER, NX)                                                                       \
  struct NAME                                                                                                          \
  {                                                                                                                    \
    BEFORE TRK_BASICS(NAME, NX) TRK_COPY_CTOR(NAME, NX) TRK_MOVE_CTOR(NAME, NX) TRK_COPY_ASG(NAME, NX)                 \
        TRK_MOVE_ASG(NAME, NX) TRK_INT_ASG(NAME, NX) AFTER                                                             \
  };

TRK_MEMBER_TYPE(MemBool, , bool flag = true;, false)
TRK_MEMBER_TYPE(MemDouble, double flag = 1.5; char pad = 'p';, , false)
TRK_MEMBER_TYPE(MemFloat, char pad = 'p'; float flag = -2.5f;, , true)
TRK_MEMBER_TYPE(MemPtr, int pad = 3;, void * flag = nullptr;, false)
TRK_MEMBER_TYPE(MemInt, , int flag = 7;, false)

} // namespace trk

namespace std
{
#define TRK_HASH(T)                                                                                                    \
  template <>                                                                                                          \
  struct hash<trk::T>                                                                                                  \
  {                                                                                                                    \
    size_t operator()(trk::T const & t) const                                                                          \
    {                                                                                                                  \
      t.checkUse("hash");                                                                                              \
      trk::event(trk::kHash, t.v, true);                                                                               \
      return static_cast<size_t>(t.v) * 2654435761u + 17;                                                              \
    }                                                                                                                  \
  };
TRK_HASH(Full)
TRK_HASH(Nx)
TRK_HASH(NxMove)
TRK_HASH(NxMoveCtorOnly)
TRK_HASH(NxMoveAsgOnly)
TRK_HASH(MoveOnly)
TRK_HASH(CopyOnly)
TRK_HASH(NoAssign)
TRK_HASH(Pinned)
TRK_HASH(OwnSwap)
TRK_HASH(MemBool)
TRK_HASH(MemDouble)
TRK_HASH(MemFloat)
TRK_HASH(MemPtr)
TRK_HASH(MemInt)
TRK_HASH(TwoCopies)
TRK_HASH(TrivDtor)
TRK_HASH(TrivDtorNx)
TRK_HASH(TrivDtorMem)
} // namespace std
