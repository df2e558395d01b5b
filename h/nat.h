// C19: the conditions of the Natvis file, translated to C++ by lib/p_c19.py, against has_value().
#pragma once
#include "layout.h"
#include <tiny/optional.h>

namespace nat
{
// The place where the flag lives, as bits.
template <class N>
unsigned char * flagBytes(typename N::Opt & o)
{
  return reinterpret_cast<unsigned char *>(&o) + N::offset();
}

template <class N>
void look(typename N::Opt & o, char const * when)
{
  lay::barrier();
  bool const empty = !o.has_value();
  lay::barrier();
  bool const shown = N::isEmpty(o);
  PBT_CHECK(shown == empty, "%s: the Natvis condition says %s after %s, has_value() is %d", N::name, shown ? "empty" : "not empty", when, !empty);
  int const d = N::display(o);
  PBT_CHECK(d == (empty ? 1 : 2), "%s: Natvis displays %s after %s, has_value() is %d", N::name, d == 1 ? "nullopt" : d == 2 ? "the value" : "neither value nor nullopt", when, !empty);
  int const e = N::expand(o);
  PBT_CHECK(e == (empty ? 1 : 2), "%s: Natvis lists %s after %s, has_value() is %d", N::name, e == 1 ? "nullopt" : e == 2 ? "the value" : "both or none", when, !empty);
}

template <class N>
void prop(pbt::Src & s)
{
  using O = typename N::Opt;
  using F = typename N::Flag;
  unsigned char emptyBits[sizeof(F)];
  {
    O e;
    std::memcpy(emptyBits, flagBytes<N>(e), sizeof(F));
  }
  O o[2];
  s.note("%s: ", N::name);
  look<N>(o[0], "construction");
  bool filled = false, emptied = false, wrote = false;
  unsigned const steps = 1 + s.draw(10);
  for (unsigned i = 0; i < steps; ++i) {
    unsigned const a = s.draw(2);
    switch (s.draw(7)) {
    case 0: {
      typename N::T t{};
      N::fill(t, s);
      o[a].emplace(t);
      filled = true;
      s.note("emplace %u; ", a);
      break;
    }
    case 1:
      emptied = emptied || o[a].has_value();
      o[a].reset();
      s.note("reset %u; ", a);
      break;
    case 2:
      o[a] = o[1 - a];
      s.note("copy to %u; ", a);
      break;
    case 3:
      o[0].swap(o[1]);
      s.note("swap; ");
      break;
    case 4:
    case 5: // the neighbourhood of the reserved pattern
      if (N::kBits && o[a].has_value()) {
        unsigned char b[sizeof(F)];
        std::memcpy(b, emptyBits, sizeof b);
        unsigned const bit = s.draw(sizeof(F) * 8);
        b[bit / 8] = static_cast<unsigned char>(b[bit / 8] ^ (1u << bit % 8));
        if (s.flip()) {
          unsigned const bit2 = s.draw(sizeof(F) * 8);
          if (bit2 != bit) {
            b[bit2 / 8] = static_cast<unsigned char>(b[bit2 / 8] ^ (1u << bit2 % 8));
          }
        }
        std::memcpy(flagBytes<N>(o[a]), b, sizeof b);
        wrote = true;
        s.note("value next to the reserved pattern, bit %u; ", bit);
      }
      break;
    default:
      if (N::kBits && o[a].has_value()) {
        unsigned char b[sizeof(F)];
        for (auto & x : b) {
          x = static_cast<unsigned char>(s.draw(256));
        }
        if (std::memcmp(b, emptyBits, sizeof b) != 0) {
          std::memcpy(flagBytes<N>(o[a]), b, sizeof b);
        wrote = true;
          s.note("random bits; ");
        }
      }
    }
    look<N>(o[0], "an operation");
    look<N>(o[1], "an operation");
    if (sizeof(void *) == 4 && std::is_floating_point_v<F> && wrote) {
      o[a].emplace(); // copies through the x87 unit would change signaling NaNs
      wrote = false;
    }
  }
  if (filled && emptied) {
    s.nontrivial();
  }
}
} // namespace nat
