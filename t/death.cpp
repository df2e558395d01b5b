// Misuse after a generated history: every case runs the misuse in a child process. Without NDEBUG the child has to end through assert, with
// NDEBUG it has to survive. The control (the same steps without misuse) always has to survive.
#include "hist.h"
#include <exception>
#include <poll.h>

#ifdef NDEBUG
constexpr bool kAsserts = false;
#else
constexpr bool kAsserts = true;
#endif

enum Verdict
{
  vOk,
  vAssert,
  vOther
};

template <class F>
Verdict inChild(F && f, char (&text)[600])
{
  static char all[16384];
  int fd[2];
  text[0] = 0;
  if (pipe(fd) != 0) {
    abort();
  }
  pid_t const pid = fork();
  if (pid == 0) {
    close(fd[0]);
    dup2(fd[1], 2);
    pbt::limitChild(10);
    std::set_terminate([] { _exit(55); });
    f();
    _exit(0);
  }
  close(fd[1]);
  size_t n = 0;
  for (;;) {
    char chunk[4096];
    ssize_t const k = read(fd[0], chunk, sizeof chunk);
    if (k < 0 && errno == EINTR) {
      continue;
    }
    if (k <= 0) {
      break;
    }
    for (ssize_t q = 0; q < k && n < sizeof all - 1; ++q) {
      all[n++] = chunk[q];
    }
  }
  all[n] = 0;
  bool const message = strstr(all, "ssert") != nullptr;
  snprintf(text, sizeof text, "%.300s", all);
  n = strlen(text);
  close(fd[0]);
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    return vOk;
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
    pbt::fail("%s", pbt::g->message[0] ? pbt::g->message : "an oracle failed in the child");
  }
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT && message) {
    return vAssert;
  }
  snprintf(text + (n > 400 ? 400 : n), 150, " (status %x)", status);
  return vOther;
}

inline char const * verdictName(Verdict v)
{
  return v == vOk ? "goes unnoticed" : v == vAssert ? "ends through assert" : "dies differently";
}

template <class F>
void expect(pbt::Src & s, char const * mode, char const * what, F && misuse)
{
  char text[600];
  Verdict const v = inChild(misuse, text);
  s.label(what);
  s.note("=> %s", what);
  PBT_CHECK(v == (kAsserts ? vAssert : vOk), "%s: misuse '%s' %s %s: %s", mode, what, verdictName(v), kAsserts ? "although assertions are active" : "although NDEBUG is defined", text);
  s.nontrivial();
}

template <class F>
void expectQuiet(pbt::Src & s, char const * mode, char const * what, F && use)
{
  char text[600];
  Verdict const v = inChild(use, text);
  PBT_CHECK(v == vOk, "%s: valid use '%s' %s: %s", mode, what, verdictName(v), text);
}

// The bytes that an empty optional writes, and their values: the sentinel.
template <class M>
struct Sentinel
{
  using Opt = typename M::Opt;
  using V = typename M::V;
  unsigned char mask[sizeof(V)] = {};
  unsigned char value[sizeof(V)] = {};
  bool usable = false;
  Sentinel()
  {
    // Separate flag: none. bool: an object with the reserved pattern cannot be passed by value.
    if constexpr (sizeof(Opt) == sizeof(V) && !std::is_same_v<V, bool> && !isTracked<V> && !std::is_same_v<V, std::string>) {
      alignas(Opt) unsigned char a[sizeof(Opt)], b[sizeof(Opt)];
      memset(a, 0x00, sizeof a);
      memset(b, 0xff, sizeof b);
      asm volatile("" ::"r"(a), "r"(b) : "memory");
      ::new (static_cast<void *>(a)) Opt();
      ::new (static_cast<void *>(b)) Opt();
      asm volatile("" ::"r"(a), "r"(b) : "memory");
      for (unsigned i = 0; i < sizeof(V); ++i) {
        mask[i] = a[i] == b[i];
        value[i] = a[i];
        usable = usable || mask[i];
      }
    }
  }
  void patch(V & v) const
  {
    for (unsigned i = 0; i < sizeof(V); ++i) {
      if (mask[i]) {
        reinterpret_cast<unsigned char *>(std::addressof(v))[i] = value[i];
      }
    }
    asm volatile("" ::"r"(std::addressof(v)) : "memory");
  }
};

#define DO_NOT_OPTIMIZE(x) asm volatile("" ::"r"(x) : "memory")

template <class M>
void prop(pbt::Src & s)
{
  using Opt = typename M::Opt;
  using V = typename M::V;
  using P = typename M::P;
  using GV = G<V>;
  trk::st.reset();
  trk::st.checkLifetime = false;
  static Side<M, Opt> b;
  static Sentinel<M> const sent;
  b.init();
  unsigned const n = s.draw(6);
  for (unsigned k = 0; k < n; ++k) {
    OpRec r;
    r.op = s.draw(opCount);
    r.i = s.draw(kSlots);
    r.j = s.draw(kSlots);
    r.variant = s.draw(12);
    r.c1 = drawValid<M>(s);
    r.c2 = drawCode(s);
    r.fault = 0;
    Res res;
    if (b.exec(r, res)) {
      s.note("%s(%u,%u;v%u;%u:%llu) ", opNames[r.op], r.i, r.j, r.variant, r.c1.kind, (unsigned long long)r.c1.bits);
    }
  }
  Opt & o = b.at(s.draw(kSlots));
  Opt const & co = o;
  Code const c = drawValid<M>(s);
  if (s.flip()) {
    o.emplace(argOf<M>(drawValid<M>(s)));
  }
  bool const store = sent.usable && s.chance(2, 3);
  if constexpr (std::is_move_constructible_v<P> && !isTracked<V>) if (store) {
    bool const engaged = o.has_value();
    // (x87 would turn... the reserved NaN is quiet, so every copy keeps it.)
    V v = GV::val(c);
    sent.patch(v);
    if constexpr (std::is_floating_point_v<V> && kIs32) {
      V const w = v;
      if (memcmp(&w, &v, sizeof v) != 0) {
        b.destroyAll();
        return;
      }
    }
    s.note("(%s) ", engaged ? "engaged" : "empty");
    switch (s.draw(9)) {
    case 0:
      expect(s, M::name, "construct from the sentinel (rvalue)", [&] {
        Opt x(std::move(v));
        DO_NOT_OPTIMIZE(&x);
      });
      break;
    case 1:
      if constexpr (std::is_copy_constructible_v<P>) {
        expect(s, M::name, "construct from the sentinel (lvalue)", [&] {
          Opt x = v;
          DO_NOT_OPTIMIZE(&x);
        });
      }
      break;
    case 2:
      expect(s, M::name, "construct in place from the sentinel", [&] {
        Opt x(std::in_place, std::move(v));
        DO_NOT_OPTIMIZE(&x);
      });
      break;
    case 3: expect(s, M::name, engaged ? "emplace the sentinel (engaged)" : "emplace the sentinel (empty)", [&] { o.emplace(std::move(v)); DO_NOT_OPTIMIZE(&o); }); break;
    case 4:
    case 5:
      if constexpr (std::is_assignable_v<P &, V>) {
        expect(s, M::name, engaged ? "assign the sentinel (engaged, rvalue)" : "assign the sentinel (empty, rvalue)", [&] { o = std::move(v); DO_NOT_OPTIMIZE(&o); });
      }
      break;
    case 6:
    case 7:
      if constexpr (std::is_assignable_v<P &, V const &> && std::is_copy_constructible_v<P>) {
        expect(s, M::name, engaged ? "assign the sentinel (engaged, lvalue)" : "assign the sentinel (empty, lvalue)", [&] { o = static_cast<V const &>(v); DO_NOT_OPTIMIZE(&o); });
      }
      break;
    default:
#if __cplusplus >= 202002L
      if constexpr (std::is_copy_constructible_v<P> && std::is_move_constructible_v<P>) {
        if (!engaged) {
          expect(s, M::name, "or_else with the sentinel", [&] {
            Opt x = co.or_else([&]() -> Opt { return Opt(v); });
            DO_NOT_OPTIMIZE(&x);
          });
        }
      }
#endif
      break;
    }
  }
  if (!store) {
    o.reset();
    switch (s.draw(6)) {
    case 0: expect(s, M::name, "*o on empty", [&] { auto && x = *o; DO_NOT_OPTIMIZE(std::addressof(x)); }); break;
    case 1: expect(s, M::name, "*const o on empty", [&] { auto && x = *co; DO_NOT_OPTIMIZE(std::addressof(x)); }); break;
    case 2: expect(s, M::name, "*std::move(o) on empty", [&] { auto && x = *std::move(o); DO_NOT_OPTIMIZE(std::addressof(x)); }); break;
    case 3: expect(s, M::name, "*std::move(const o) on empty", [&] { auto && x = *std::move(co); DO_NOT_OPTIMIZE(std::addressof(x)); }); break;
    case 4: expect(s, M::name, "o-> on empty", [&] { auto x = o.operator->(); DO_NOT_OPTIMIZE(x); }); break;
    default: expect(s, M::name, "const o-> on empty", [&] { auto x = co.operator->(); DO_NOT_OPTIMIZE(x); }); break;
    }
  }
  b.destroyAll();
}
#define X(M) static pbt::Reg reg_##M("death/" #M, &prop<M>);
#ifdef GRP_A
GROUP_A(X)
#endif
#ifdef GRP_B
GROUP_B(X)
#endif
#ifdef GRP_C
GROUP_C(X)
#endif
#ifdef GRP_D
GROUP_D(X)
#endif
#ifdef GRP_E
GROUP_E(X)
#endif

#ifdef GRP_S
// Payloads that turn into the sentinel when they are copied or moved, and the remaining routes.
struct Handle
{
  int h = 0;
  double d = 0;
  bool copyBreaks = false;
  Handle(int x) noexcept
    : h(x)
  {
  }
  Handle(std::initializer_list<int> il, int y)
    : h(*il.begin() + y)
  {
  }
  Handle(Handle const & o) noexcept
    : h(o.copyBreaks ? -1 : o.h)
    , d(o.d)
  {
  }
  Handle(Handle && o) noexcept
    : h(o.h)
    , d(o.d)
  {
    o.h = -1;
  }
  Handle & operator=(Handle const & o) noexcept
  {
    h = o.copyBreaks ? -1 : o.h;
    return *this;
  }
  Handle & operator=(Handle && o) noexcept
  {
    h = o.h;
    o.h = -1;
    return *this;
  }
};
struct HandleManip
{
  static bool is_empty(Handle const & h) noexcept { return h.h == -1; }
  static void init_empty_flag(Handle & h) noexcept { ::new (static_cast<void *>(&h)) Handle(-1); }
  static void invalidate_empty_flag(Handle & h) noexcept { h.~Handle(); }
};
struct SentM1
{
  static constexpr int value = -1;
};

template <class O>
void special(pbt::Src & s)
{
  char const * const name = "payload that becomes the sentinel";
  int const x = static_cast<int>(s.draw(100));
  bool const targetEngaged = s.flip();
  O src(std::in_place, x);
  O dst;
  if (targetEngaged) {
    dst.emplace(5);
  }
  if (s.flip()) {
    // as a moved-from / reset / refilled optional
    src.reset();
    src = Handle(x);
  }
  switch (s.draw(8)) {
  case 0: expect(s, name, "move construction empties the source", [&] { O y(std::move(src)); DO_NOT_OPTIMIZE(&y); }); break;
  case 1: expect(s, name, "move assignment empties the source", [&] { dst = std::move(src); DO_NOT_OPTIMIZE(&dst); }); break;
  case 2:
    src->copyBreaks = true;
    expect(s, name, "copy construction yields the sentinel", [&] { O y(src); DO_NOT_OPTIMIZE(&y); });
    break;
  case 3:
    src->copyBreaks = true;
    expect(s, name, targetEngaged ? "copy assignment yields the sentinel (engaged)" : "copy assignment yields the sentinel (empty)", [&] { dst = std::as_const(src); DO_NOT_OPTIMIZE(&dst); });
    break;
  case 4: {
    Handle h(3);
    h.copyBreaks = true;
    expect(s, name, targetEngaged ? "value assignment yields the sentinel (engaged)" : "value assignment yields the sentinel (empty)", [&] { dst = h; DO_NOT_OPTIMIZE(&dst); });
    break;
  }
  case 5:
    expect(s, name, "initializer_list construction", [&] { O y(std::in_place, {-5}, 4); DO_NOT_OPTIMIZE(&y); });
    expectQuiet(s, name, "initializer_list construction", [&] { O y(std::in_place, {-5}, x + 6); DO_NOT_OPTIMIZE(&y); });
    break;
  case 6:
    expect(s, name, "initializer_list emplace", [&] { dst.emplace({-5}, 4); DO_NOT_OPTIMIZE(&dst); });
    expectQuiet(s, name, "initializer_list emplace", [&] { dst.emplace({-5}, x + 6); DO_NOT_OPTIMIZE(&dst); });
    break;
  default:
    expect(s, name, targetEngaged ? "converting assignment (engaged)" : "converting assignment (empty)", [&] { dst = -1; DO_NOT_OPTIMIZE(&dst); });
    expectQuiet(s, name, "converting assignment", [&] { dst = x; DO_NOT_OPTIMIZE(&dst); });
    break;
  }
}
  #ifndef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER
static pbt::Reg regS1("death/Handle member", &special<tiny::optional<Handle, &Handle::h, -1>>, 400);
static pbt::Reg regS3("death/Handle member via type", &special<tiny::optional_sentinel_via_type<Handle, SentM1, &Handle::h>>, 400);
  #endif
static pbt::Reg regS2("death/Handle inplace", &special<tiny::optional_inplace<Handle, HandleManip>>, 400);

  #ifndef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS
static double reservedDouble()
{
  tiny::optional<double> e;
  double d;
  memcpy(&d, &e, sizeof d);
  return d;
}
static int * reservedPtr()
{
  tiny::optional<int *> e;
  int * d;
  memcpy(&d, &e, sizeof d);
  return d;
}
  #endif

void routes(pbt::Src & s)
{
  using E = cm::Outer::E;
  char const * const name = "routes";
  int const x = static_cast<int>(s.draw(50));
  tiny::optional<int> o(x);
  tiny::optional<int> const & co = o;
  bool const nothrow = s.flip();
  auto toE = [&](auto f) {
    // Through every value category.
    switch (s.draw(4)) {
    case 0: expect(s, name, "transform to the sentinel (&)", [&] { auto r = o.transform(f); DO_NOT_OPTIMIZE(&r); }); break;
    case 1: expect(s, name, "transform to the sentinel (const &)", [&] { auto r = co.transform(f); DO_NOT_OPTIMIZE(&r); }); break;
    case 2: expect(s, name, "transform to the sentinel (&&)", [&] { auto r = std::move(o).transform(f); DO_NOT_OPTIMIZE(&r); }); break;
    default: expect(s, name, "transform to the sentinel (const &&)", [&] { auto r = std::move(co).transform(f); DO_NOT_OPTIMIZE(&r); }); break;
    }
  };
  switch (s.draw(9)) {
  case 0:
    if (nothrow) {
      toE([](int) noexcept { return E::sentinel; });
    }
    else {
      toE([](int) { return E::sentinel; });
    }
    expectQuiet(s, name, "transform", [&] { auto r = o.transform([](int) { return E::v3; }); DO_NOT_OPTIMIZE(&r); });
    break;
  case 1:
    if (nothrow) {
      toE([](int) noexcept { return cm::IndexPair{-3, -4}; });
    }
    else {
      toE([](int) { return cm::IndexPair{-3, -4}; });
    }
    break;
  case 2:
    expect(s, name, "make_optional<T, sentinel>(sentinel)", [&] { auto r = tiny::make_optional<int, 7>(7); DO_NOT_OPTIMIZE(&r); });
    expectQuiet(s, name, "make_optional<T, sentinel>", [&] { auto r = tiny::make_optional<int, 700>(x); DO_NOT_OPTIMIZE(&r); });
    break;
  case 3: expect(s, name, "make_optional of a type with manipulator", [&] { auto r = tiny::make_optional(E::sentinel); DO_NOT_OPTIMIZE(&r); }); break;
  case 4: expect(s, name, "make_optional<T>(args)", [&] { auto r = tiny::make_optional<E>(E::sentinel); DO_NOT_OPTIMIZE(&r); }); break;
  case 5: expect(s, name, "deduction guide", [&] { tiny::optional r(cm::IndexPair{-1, -2}); DO_NOT_OPTIMIZE(&r); }); break;
  #ifndef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER
  case 6: expect(s, name, "make_optional<T, member, sentinel>(args)", [&] { auto r = tiny::make_optional<Handle, &Handle::h, -1>(-1); DO_NOT_OPTIMIZE(&r); }); break;
  case 7: expect(s, name, "make_optional<T, member, sentinel>(il, args)", [&] { auto r = tiny::make_optional<Handle, &Handle::h, -1>({-4}, 3); DO_NOT_OPTIMIZE(&r); }); break;
  #endif
  #ifndef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS
  case 8:
    if (nothrow) {
      toE([](int) noexcept { return reservedDouble(); });
    }
    else {
      toE([](int) { return reservedPtr(); });
    }
    break;
  #endif
  default: expect(s, name, "assign through conversion", [&] { tiny::optional<short, 9> r; r = 9; DO_NOT_OPTIMIZE(&r); }); break;
  }
}
static pbt::Reg regRoutes("death/routes", &routes, 800);
#endif
