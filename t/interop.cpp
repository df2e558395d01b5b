// C18: a history of operations on shared objects, every operation done by the code of a randomly chosen unit. Does not know tiny::optional.
#include "interop.h"
#include "pbt.h"
#include <cstdlib>
#include <cstring>
#include <optional>

// Units that agree about the settings are loaded as shared libraries (each with its own code) and work on the same objects. Units with
// different settings are linked into the program (-DCOEXIST); every unit then has its own objects.
#ifdef COEXIST
constexpr bool kCoexist = true;
extern "C" Ops const * ops_A(unsigned *);
extern "C" Ops const * ops_B(unsigned *);
#else
  #include <dlfcn.h>
constexpr bool kCoexist = false;
static Ops const * load(char const * var, unsigned * n)
{
  char const * const path = std::getenv(var);
  void * const h = path ? dlopen(path, RTLD_NOW | RTLD_LOCAL) : nullptr;
  if (!h) {
    std::fprintf(stderr, "cannot load %s %s: %s\n", var, path ? path : "?", dlerror());
    std::exit(3);
  }
  return reinterpret_cast<Ops const * (*)(unsigned *)>(dlsym(h, "ops_A"))(n);
}
static Ops const * ops_A(unsigned * n)
{
  static unsigned k;
  static Ops const * const o = load("UNIT_A", &k);
  *n = k;
  return o;
}
static Ops const * ops_B(unsigned * n)
{
  static unsigned k;
  static Ops const * const o = load("UNIT_B", &k);
  *n = k;
  return o;
}
#endif

static void interop(pbt::Src & s)
{
  unsigned na, nb;
  Ops const * const a = ops_A(&na);
  Ops const * const b = ops_B(&nb);
  PBT_CHECK(kCoexist || na == nb, "different kinds");
  unsigned const k = s.draw(na < nb ? na : nb);
  Ops const * const u[2] = {a + k, b + k};
  char const * const name = a[k].name;
  s.note("%s: ", name);
  bool const isBool = std::strcmp(name, "tiny::optional<bool>") == 0;
  PBT_CHECK(std::strcmp(a[k].name, b[k].name) == 0, "different kinds");
  if (!kCoexist) {
    PBT_CHECK(a[k].size == b[k].size && a[k].align == b[k].align, "%s: sizeof %zu/%zu, alignof %zu/%zu", name, a[k].size, b[k].size, a[k].align, b[k].align);
    PBT_CHECK(a[k].compressed == b[k].compressed, "%s: is_compressed differs", name);
  }
  constexpr unsigned N = 3;
  std::size_t const stride = ((a[k].size > b[k].size ? a[k].size : b[k].size) + 63) / 64 * 64;
  unsigned char * const mem = static_cast<unsigned char *>(std::aligned_alloc(64, stride * N));
  std::memset(mem, static_cast<int>(s.draw(256)), stride * N);
  void * slot[N];
  std::optional<long> m[N];
  bool mixed = false, filled = false, emptied = false;
  int last = -1;
  auto val = [&] { return static_cast<long>(isBool ? s.draw(2) : s.draw(900)); };
  int owner = 0; // with COEXIST: one unit for the three slots, then the other one
  auto unit = [&]() -> Ops const & {
    int const x = kCoexist ? owner : static_cast<int>(s.draw(2));
    mixed = mixed || (last != -1 && last != x);
    last = x;
    s.note("%c:", "AB"[x]);
    return *u[x];
  };
  for (int round = 0; round < (kCoexist ? 2 : 1); ++round) {
  owner = round;
  for (unsigned i = 0; i < N; ++i) {
    m[i].reset();
    slot[i] = mem + i * stride;
    unit().make(slot[i]);
    s.note("make %u; ", i);
  }
  unsigned const steps = 1 + s.draw(20);
  for (unsigned st = 0; st < steps; ++st) {
    unsigned const i = s.draw(N), j = s.draw(N);
    long const v = val();
    unsigned const op = s.draw(16);
    Ops const & f = unit();
    s.note("op%u %u,%u,%ld; ", op, i, j, v);
    bool const was = m[i].has_value();
    switch (op) {
    case 0: f.assign(slot[i], v); m[i] = v; break;
    case 1: f.assignNull(slot[i]); m[i].reset(); break;
    case 2: f.reset(slot[i]); m[i].reset(); break;
    case 3: f.emplace(slot[i], v); m[i] = v; break;
    case 4: f.copy(slot[i], slot[j]); m[i] = m[j]; break;
    case 5: f.copy(slot[j], slot[i]); m[j] = m[i]; break;
    case 6: // what a moved-from payload holds is not determined: refill it
      if (i != j) {
        f.move(slot[i], slot[j]);
        m[i] = m[j];
        PBT_CHECK(unit().has(slot[j]) == m[j].has_value(), "%s: moved-from state", name);
        if (m[j]) {
          unit().write(slot[j], v);
          m[j] = v;
        }
      }
      break;
    case 7: f.swap(slot[i], slot[j]); std::swap(m[i], m[j]); break;
    case 8:
      if (m[i]) {
        f.write(slot[i], v);
        m[i] = v;
      }
      break;
    case 9: unit().destroy(slot[i]); f.make(slot[i]); m[i].reset(); break;
    case 10: unit().destroy(slot[i]); f.makeNull(slot[i]); m[i].reset(); break;
    case 11: unit().destroy(slot[i]); f.makeValue(slot[i], v); m[i] = v; break;
    case 12: unit().destroy(slot[i]); f.makeInPlace(slot[i], v); m[i] = v; break;
    case 13:
      if (i != j) {
        unit().destroy(slot[i]);
        f.makeCopy(slot[i], slot[j]);
        m[i] = m[j];
      }
      break;
    case 14:
      if (i != j) {
        unit().destroy(slot[i]);
        f.makeMove(slot[i], slot[j]);
        m[i] = m[j];
        unit().reset(slot[j]);
        m[j].reset();
      }
      break;
    default: f.destroy(slot[i]); unit().makeValue(slot[i], v); m[i] = v; break;
    }
    filled = filled || (!was && m[i]);
    emptied = emptied || (was && !m[i]);
    for (Ops const * const w : u) {
      if (kCoexist && w != u[owner]) {
        continue;
      }
      char const who = w == u[0] ? 'A' : 'B';
      for (unsigned x = 0; x < N; ++x) {
        PBT_CHECK(w->has(slot[x]) == m[x].has_value(), "%s: unit %c sees slot %u as %s", name, who, x, m[x] ? "empty" : "engaged");
        PBT_CHECK(w->valueOr(slot[x], 1) == m[x].value_or(1), "%s: unit %c reads another value (value_or)", name, who);
        PBT_CHECK(w->transform(slot[x]) == (m[x] ? *m[x] + 1 : -1), "%s: unit %c: transform", name, who);
        PBT_CHECK(w->byValue(slot[x]) == (m[x] ? *m[x] : -1), "%s: unit %c: passing by value", name, who);
        PBT_CHECK(kCoexist || u[0]->hash(slot[x]) == w->hash(slot[x]), "%s: the units hash differently", name);
        if (m[x]) {
          PBT_CHECK(w->get(slot[x]) == *m[x], "%s: unit %c reads another value", name, who);
          PBT_CHECK(kCoexist || w->payloadOffset(slot[x]) == u[0]->payloadOffset(slot[x]), "%s: the units disagree about the payload's place", name);
        }
        for (unsigned y = 0; y < N; ++y) {
          int const e = w->equal(slot[x], slot[y]);
          PBT_CHECK(e == -1 || e == (m[x] == m[y]), "%s: unit %c: ==", name, who);
          int const l = w->less(slot[x], slot[y]);
          PBT_CHECK(l == -1 || std::strstr(name, "tiny::optional<int>>") || l == (m[x] < m[y]), "%s: unit %c: <", name, who);
        }
      }
    }
  }
  for (unsigned i = 0; i < N; ++i) {
    unit().destroy(slot[i]);
  }
  }
  std::free(mem);
  s.label(name);
  if (mixed && filled && emptied) {
    s.nontrivial();
  }
}
static pbt::Reg r("interop", &interop);
