// C13: random struct layouts (generated by lib/p_c13.py), the empty flag in one of the members.
#pragma once
#include "pbt.h"
#include <cstring>
#include <new>
#include <optional>
#include <tiny/optional.h>
#include <type_traits>

namespace lay
{
inline void barrier() { asm volatile("" ::: "memory"); }
inline int objs[8];
inline int fn0(int x) { return x; }
inline int fn1(int x) { return x + 1; }

template <class T>
void fill(T & t, pbt::Src & s)
{
  if constexpr (std::is_same_v<T, bool>) {
    t = s.flip();
  }
  else if constexpr (std::is_integral_v<T>) {
    switch (s.draw(4)) {
    case 0: t = static_cast<T>(s.draw(8)); break;
    case 1: t = static_cast<T>(~static_cast<unsigned long long>(s.draw(8))); break;
    case 2: t = static_cast<T>(1ull << (sizeof(T) * 8 - 1)); break;
    default: t = static_cast<T>(s.draw(0x7fffffff) * 0x100000001ull); break;
    }
  }
  else if constexpr (std::is_same_v<T, long double>) {
    t = static_cast<long double>(s.draw(1000)) / 3;
  }
  else if constexpr (std::is_floating_point_v<T>) {
    static T const v[] = {0, -T(0), 1, -1, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(),
                          std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                          std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::epsilon()};
    unsigned const k = s.draw(16);
    t = k < 12 ? v[k] : static_cast<T>(s.draw(100000)) / 7;
  }
  else if constexpr (std::is_pointer_v<T> && std::is_function_v<std::remove_pointer_t<T>>) {
    unsigned const k = s.draw(3);
    t = k == 0 ? nullptr : k == 1 ? &fn0 : &fn1;
  }
  else if constexpr (std::is_pointer_v<T>) {
    static std::intptr_t const v[] = {0, 8, 1, 3, -1, -2, -4, -6};
    unsigned const k = s.draw(16);
    std::intptr_t const a = k < 8 ? v[k] : reinterpret_cast<std::intptr_t>(&objs[k - 8]);
    t = reinterpret_cast<T>(a);
  }
  else {
    for (auto & b : t.g) {
      b = static_cast<unsigned char>(s.draw(256));
    }
  }
}
template <class T, std::size_t N>
void fill(T (&t)[N], pbt::Src & s)
{
  for (auto & x : t) {
    fill(x, s);
  }
}
template <class T>
bool same(T const & a, T const & b)
{
  if constexpr (std::is_same_v<T, long double>) {
    return a == b;
  }
  else {
    return memcmp(&a, &b, sizeof(T)) == 0;
  }
}
template <class T, std::size_t N>
bool same(T const (&a)[N], T const (&b)[N])
{
  for (std::size_t i = 0; i < N; ++i) {
    if (!same(a[i], b[i])) {
      return false;
    }
  }
  return true;
}

constexpr unsigned kN = 4;
constexpr unsigned kGuard = 64;

// Tr: T, Opt, fill(T&, Src&), same(T const&, T const&) -> name of the differing member or null, flag(T const&) -> address and size of
// the flag member, hasFlag, modify(T&, Src&): changes one member in place (never to the empty value)
template <class Tr>
void prop(pbt::Src & s)
{
  using T = typename Tr::T;
  using Opt = typename Tr::Opt;
  struct alignas(Opt) Arena
  {
    unsigned char before[kGuard];
    alignas(Opt) unsigned char raw[kN * sizeof(Opt)];
    unsigned char after[kGuard];
  };
  static Arena ar;
  static unsigned char snap[sizeof(Arena)];
  memset(&ar, 0xc3, sizeof ar);
  barrier();
  auto at = [&](unsigned i) -> Opt & { return *std::launder(reinterpret_cast<Opt *>(ar.raw + i * sizeof(Opt))); };
  for (unsigned i = 0; i < kN; ++i) {
    ::new (static_cast<void *>(ar.raw + i * sizeof(Opt))) Opt();
  }
  std::optional<T> model[kN];
  unsigned const n = 1 + s.draw(14);
  bool filled = false, emptied = false;
  for (unsigned k = 0; k < n; ++k) {
    unsigned const op = s.draw(11), i = s.draw(kN), j = s.draw(kN);
    T v{};
    Tr::fill(v, s);
    T const orig(v);
    barrier();
    memcpy(snap, &ar, sizeof ar);
    static char const * const names[] = {"assign value", "emplace", "reset", "assign nullopt", "copy-assign", "move-assign", "swap", "rebuild as copy", "modify member",
                                         "assign rvalue", "read"};
    s.note("%s(%u,%u) ", names[op], i, j);
    bool const was = model[i].has_value();
    bool touchJ = false;
    switch (op) {
    case 0:
      at(i) = orig;
      model[i] = orig;
      break;
    case 1:
      at(i).emplace(orig);
      model[i].emplace(orig);
      break;
    case 2:
      at(i).reset();
      model[i].reset();
      break;
    case 3:
      at(i) = std::nullopt;
      model[i] = std::nullopt;
      break;
    case 4:
      at(i) = static_cast<Opt const &>(at(j));
      if (i != j) {
        model[i] = model[j];
      }
      break;
    case 5:
      if (i != j) {
        at(i) = std::move(at(j));
        model[i] = model[j];
        touchJ = true;
      }
      break;
    case 6:
      if (i != j) {
        at(i).swap(at(j));
        model[i].swap(model[j]);
        touchJ = true;
      }
      break;
    case 7:
      if (i != j) {
        at(i).~Opt();
        ::new (static_cast<void *>(ar.raw + i * sizeof(Opt))) Opt(static_cast<Opt const &>(at(j)));
        if (model[j]) {
          model[i].emplace(*model[j]);
        }
        else {
          model[i].reset();
        }
      }
      break;
    case 8:
      if (was) {
        T tmp(*model[i]);
        unsigned const m = s.draw(Tr::kMembers);
        Tr::modify(m, *at(i), v, tmp);
        model[i].emplace(tmp);
      }
      break;
    case 9:
      at(i) = std::move(v);
      model[i] = orig;
      break;
    default: (void)at(i).has_value(); break;
    }
    barrier();
    char const * const what = names[op];
    // Guards and uninvolved neighbours, byte by byte.
    unsigned char const * const now = reinterpret_cast<unsigned char const *>(&ar);
    std::size_t const rawOff = static_cast<std::size_t>(ar.raw - reinterpret_cast<unsigned char *>(&ar));
    for (std::size_t b = 0; b < sizeof ar; ++b) {
      if (b >= rawOff && b < rawOff + sizeof ar.raw) {
        std::size_t const q = (b - rawOff) / sizeof(Opt);
        if (q == i || (touchJ && q == j)) {
          continue;
        }
        PBT_CHECK(now[b] == snap[b], "%s: %s(%u,%u): byte %u of the uninvolved element %u changed", Tr::name, what, i, j, (unsigned)((b - rawOff) % sizeof(Opt)), (unsigned)q);
      }
      else {
        PBT_CHECK(now[b] == snap[b], "%s: %s(%u,%u): memory outside of the optionals changed", Tr::name, what, i, j);
      }
    }
    for (unsigned q = 0; q < kN; ++q) {
      PBT_CHECK(at(q).has_value() == model[q].has_value(), "%s: %s(%u,%u): element %u has_value()==%d", Tr::name, what, i, j, q, at(q).has_value());
      if (model[q]) {
        T const & p = *at(q);
        char const * const d = Tr::same(*model[q], p);
        PBT_CHECK(!d, "%s: %s(%u,%u): member %s of element %u has not kept its value", Tr::name, what, i, j, d, q);
      }
    }
    if (Tr::hasFlag && was && (op == 2 || op == 3)) {
      // Emptying writes the flag member only.
      T const & p = *std::launder(reinterpret_cast<T const *>(ar.raw + i * sizeof(Opt)));
      auto const f = Tr::flag(p);
      std::size_t const lo = static_cast<std::size_t>(static_cast<unsigned char const *>(f.first) - now), hi = lo + f.second;
      for (std::size_t b = rawOff + i * sizeof(Opt); b < rawOff + (i + 1) * sizeof(Opt); ++b) {
        PBT_CHECK(now[b] == snap[b] || (b >= lo && b < hi), "%s: %s(%u): emptying changed byte %u, which is not part of the flag member", Tr::name, what, i, (unsigned)(b - rawOff - i * sizeof(Opt)));
      }
    }
    filled = filled || (!was && model[i]);
    emptied = emptied || (was && !model[i]);
    s.label(what);
  }
  if (filled && emptied) {
    s.nontrivial();
  }
  for (unsigned i = 0; i < kN; ++i) {
    at(i).~Opt();
  }
}
} // namespace lay
