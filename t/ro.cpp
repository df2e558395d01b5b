// C20: const operations never write. The optionals lie in a write-protected page (default), or are read by several threads at once under the
// thread sanitizer (-DTHREADS), which also sees writes to shared state outside of the optional.
#include "hist.h"
#include <sys/mman.h>
#include <unistd.h>
#ifdef THREADS
  #include <thread>
#endif

template <class T, class = void>
inline constexpr bool hasNe = false;
template <class T>
inline constexpr bool hasNe<T, std::void_t<decltype(std::declval<T const &>() != std::declval<T const &>())>> = hasEq<T>;

constexpr unsigned kOps = 26;

// One const operation. The target of assignments is dst (writable).
template <class M>
uint64_t constOp(unsigned op, typename M::Opt const & o, typename M::Opt const & p, Code const c)
{
  using O = typename M::Opt;
  using P = typename M::P;
  using V = typename M::V;
  using GV = G<V>;
  constexpr bool CC = std::is_copy_constructible_v<P>;
  constexpr bool CCR = std::is_constructible_v<P, P const &&>;
  constexpr bool CA = CC && std::is_copy_assignable_v<P>;
  constexpr bool Opaque = std::is_same_v<V, Greedy>;
  constexpr bool Nested = IsNested<V>::value;
  auto see = [](O const & x) -> uint64_t { return x.has_value() ? 1 + 2 * (Opaque ? 0 : obsP<M>(*x)) : 0; };
  switch (op) {
  case 0: return o.has_value();
  case 1: return static_cast<bool>(o);
  case 2: return see(o);
  case 3: return o ? 1 + (Opaque ? 0 : obsP<M>(*o.operator->())) : 0;
  case 4:
    try {
      return 1 + (Opaque ? 0 : obsP<M>(o.value()));
    }
    catch (std::bad_optional_access const &) {
      return 0;
    }
  case 5:
    try {
      auto && r = std::move(o).value();
      return 1 + (Opaque ? 0 : obsP<M>(r));
    }
    catch (std::bad_optional_access const &) {
      return 0;
    }
  case 6:
    if constexpr (CC) {
      V const r = o.value_or(GV::val(c));
      return Opaque ? 0 : GV::obs(r);
    }
    return 0;
  case 7:
    if constexpr (CC && CCR) {
      V const r = std::move(o).value_or(GV::val(c));
      return Opaque ? 0 : GV::obs(r);
    }
    return 0;
  case 8:
    if constexpr (CC) {
      O const r(o);
      return see(r);
    }
    return 0;
  case 9:
    if constexpr (CC) {
      O const r = std::move(o); // const &&: copies
      return see(r);
    }
    return 0;
  case 10:
    if constexpr (CA) {
      O r;
      r = o;
      return see(r);
    }
    return 0;
  case 11:
    if constexpr (CA) {
      O r(std::in_place, argOf<M>(c));
      r = o;
      return see(r);
    }
    return 0;
  case 12:
    if constexpr (CA) {
      O r(std::in_place, argOf<M>(c));
      r = std::move(o);
      return see(r);
    }
    return 0;
  case 13:
    if constexpr (hasNe<P>) {
      return (o == p) + 2 * (o != p) + 4 * (p == o) + 8 * (o == o);
    }
    return 0;
  case 14:
    if constexpr (hasLess<P>) {
      return (o < p) + 2 * (o <= p) + 4 * (o > p) + 8 * (o >= p);
    }
    return 0;
  case 15:
    if constexpr (!Nested) {
      return (o == std::nullopt) + 2 * (std::nullopt != o) + 4 * (o < std::nullopt) + 8 * (std::nullopt <= o) + 16 * (o > std::nullopt) + 32 * (o >= std::nullopt);
    }
    return 0;
  case 16:
    if constexpr (hasNe<P> && !Nested) {
      return p ? (o == *p) + 2 * (*p == o) + 4 * (o != *p) : 0;
    }
    return 0;
  case 17:
    if constexpr (hasLess<P> && !Nested) {
      return p ? (o < *p) + 2 * (*p <= o) + 4 * (o > *p) : 0;
    }
    return 0;
  case 18:
    if constexpr (std::is_default_constructible_v<std::hash<O>>) {
      return std::hash<O>()(o);
    }
    return 0;
  case 19: {
    auto const r = o.transform([](P const & x) { return Opaque ? uint64_t(7) : obsP<M>(x); });
    return r ? 1 + *r : 0;
  }
  case 20: {
    auto const r = std::move(o).transform([](P const && x) { return Opaque ? uint64_t(7) : obsP<M>(x); });
    return r ? 1 + *r : 0;
  }
  case 21: {
    auto const r = o.and_then([](P const & x) { return tiny::optional<uint64_t>(Opaque ? uint64_t(7) : obsP<M>(x)); });
    return r ? 1 + *r : 0;
  }
  case 22: {
    auto const r = std::move(o).and_then([](P const && x) { return std::optional<uint64_t>(Opaque ? uint64_t(7) : obsP<M>(x)); });
    return r ? 1 + *r : 0;
  }
  case 23:
#ifdef TINY_OPTIONAL_ENABLE_ORELSE
    if constexpr (CC) {
      O const r = o.or_else([&] { return O(std::in_place, argOf<M>(c)); });
      return see(r);
    }
#endif
    return 0;
  case 24:
    if constexpr (CC && hasNe<P>) {
      std::optional<P> const q = o ? std::optional<P>(std::in_place, *o) : std::optional<P>();
      if constexpr (!Nested) {
        return (o == q) + 2 * (q == o) + 4 * (o != q);
      }
    }
    return 0;
  default:
    if constexpr (CC) {
      std::vector<O> v;
      v.push_back(o);
      return see(v[0]);
    }
    return 0;
  }
}

#ifndef THREADS
struct Page
{
  std::size_t const size = static_cast<std::size_t>(sysconf(_SC_PAGESIZE));
  unsigned char * mem;
  Page() : mem(static_cast<unsigned char *>(mmap(nullptr, 2 * size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0))) { }
  void writable() { mprotect(mem, 2 * size, PROT_READ | PROT_WRITE); }
  void readonly() { mprotect(mem, 2 * size, PROT_READ); }
};
#endif

template <class M>
void prop(pbt::Src & s)
{
  using O = typename M::Opt;
  trk::st.reset();
  trk::st.checkLifetime = false;
#ifndef THREADS
  static Page page;
  unsigned char * const mem = page.mem;
  page.writable();
  std::memset(mem, static_cast<int>(s.draw(256)), 2 * page.size);
#else
  alignas(64) static unsigned char mem[8192];
  std::memset(mem, static_cast<int>(s.draw(256)), sizeof mem);
#endif
  std::size_t const stride = (sizeof(O) + alignof(O) - 1) / alignof(O) * alignof(O);
  unsigned const first = s.draw(8);
  O * o[2];
  Code c[2];
  unsigned how[2];
  for (unsigned i = 0; i < 2; ++i) {
    void * const at = mem + stride * (first + 2 * i);
    c[i] = drawValid<M>(s);
    how[i] = s.draw(5);
    switch (how[i]) {
    case 0: o[i] = ::new (at) O(); break;
    case 1: o[i] = ::new (at) O(std::in_place, argOf<M>(c[i])); break;
    case 2:
      o[i] = ::new (at) O();
      o[i]->emplace(argOf<M>(c[i]));
      break;
    case 3:
      o[i] = ::new (at) O(std::in_place, argOf<M>(c[i]));
      o[i]->reset();
      break;
    default:
      o[i] = ::new (at) O(std::in_place, argOf<M>(c[i]));
      *o[i] = std::nullopt;
      o[i]->emplace(argOf<M>(c[i]));
      break;
    }
    s.note("%s ", o[i]->has_value() ? "engaged" : "empty");
  }
  bool const engaged = o[0]->has_value();
  PBT_CHECK(engaged == (how[0] != 0 && how[0] != 3), "%s: wrong state", M::name);
  Code const d = drawValid<M>(s);
  unsigned const n = 1 + s.draw(8);
  unsigned ops[9];
  uint64_t want[9];
  for (unsigned k = 0; k < n; ++k) {
    ops[k] = s.draw(kOps);
    s.note("op%u ", ops[k]);
    want[k] = constOp<M>(ops[k], *o[0], *o[1], d);
  }
#ifndef THREADS
  page.readonly();
  for (unsigned k = 0; k < n; ++k) {
    uint64_t const got = constOp<M>(ops[k], *o[0], *o[1], d);
    PBT_CHECK(got == want[k], "%s: op%u gives another result the second time", M::name, ops[k]);
  }
  page.writable();
#else
  auto work = [&](unsigned from, bool * ok) {
    for (unsigned r = 0; r < 2; ++r) {
      for (unsigned k = 0; k < n; ++k) {
        unsigned const j = (k + from) % n;
        *ok = *ok && constOp<M>(ops[j], *o[0], *o[1], d) == want[j];
      }
    }
  };
  bool a = true, b = true;
  {
    std::thread t1(work, 0, &a), t2(work, n / 2, &b);
    t1.join();
    t2.join();
  }
  PBT_CHECK(a && b, "%s: another result when read by two threads", M::name);
#endif
  o[0]->~O();
  o[1]->~O();
  s.nontrivial();
  s.label(engaged ? "engaged" : "empty");
}

#define X(M) static pbt::Reg r_##M("ro/" #M, &prop<M>);
#if defined(GRP_A)
GROUP_A(X)
#elif defined(GRP_B)
GROUP_B(X)
#elif defined(GRP_C)
GROUP_C(X)
#elif defined(GRP_D)
GROUP_D(X)
#else
GROUP_E(X)
#endif
