// Histories of tiny optionals alone, whose transcripts are compared between build configurations.
// -DCONF=1: all values, -DCONF=2: finite numbers only (for -ffast-math).
#include "hist.h"

template <class T>
inline constexpr bool fp = std::is_floating_point_v<std::remove_cv_t<T>>;
template <class T>
inline constexpr bool fp<tiny::optional<T>> = fp<T>;

template <class M>
void prop(pbt::Src & s)
{
  using Tiny = typename M::Opt;
  trk::st.reset();
  trk::st.checkLifetime = true;
  static Side<M, Tiny> b;
  b.init();
  unsigned const n = 1 + s.draw(30);
  bool filled = false, emptied = false;
  for (unsigned k = 0; k < n; ++k) {
    OpRec r;
    r.op = s.draw(opCount);
    r.i = s.draw(kSlots);
    r.j = s.draw(kSlots);
    r.variant = s.draw(12);
    Code const c1 = drawCode(s);
    r.c1 = c1;
    for (unsigned q = 0; q < 6 && M::bad(r.c1); ++q) {
      r.c1 = Code{0, (r.c1.bits + 1) % 6};
    }
    r.c2 = drawCode(s);
    r.fault = s.chance(1, 6) ? 1 + s.draw(6) : 0;
    if (r.op == opOrElse) {
      continue; // not in C++17
    }
    bool const before = b.at(r.i).has_value();
    Res res;
    unsigned threw = 0;
    bool ok = false;
    trk::startOp(r.fault);
    try {
      ok = b.exec(r, res);
    }
    catch (trk::Fault const & f) {
      threw = f.number;
      ok = true;
    }
    trk::st.faultAt = 0;
    s.transcript(ok ? 0x100 + r.op : 0x99);
    if (!ok) {
      continue;
    }
    s.note("%s(%u,%u;v%u;%u:%llu)", opNames[r.op], r.i, r.j, r.variant, r.c1.kind, (unsigned long long)r.c1.bits);
    s.transcript(threw);
    if (threw) {
      s.note("!throws@%u", threw);
    }
    for (unsigned q = 0; q < res.n; ++q) {
      if (CONF == 1 || r.op != opCompare) {
        s.transcript(res.v[q]);
        s.note(" r%llx", (unsigned long long)res.v[q]);
      }
    }
    s.note(" -> ");
    for (unsigned q = 0; q < kSlots; ++q) {
      uint64_t const o = obsOpt<M>(b.cat(q));
      s.transcript(o);
      s.note("%llx ", (unsigned long long)o);
    }
    s.note("| ");
    filled = filled || (!before && b.at(r.i).has_value());
    emptied = emptied || (before && !b.at(r.i).has_value());
    s.label(opNames[r.op]);
  }
  if (filled && emptied) {
    s.nontrivial();
  }
  b.destroyAll();
  s.transcript(trk::st.liveCount);
  PBT_CHECK(trk::st.liveCount == 0, "%s: lifetime: %u payload objects were never destroyed", M::name, trk::st.liveCount);
}
template <class A, class O>
A doTransformTo(O const & o, unsigned v)
{
  using V = typename A::value_type;
  A r;
  if (o.has_value()) {
    r = A(std::in_place, static_cast<V>(static_cast<int>(*o)));
  }
  else if (v & 1) {
    r.emplace(static_cast<V>(1));
    r = std::nullopt;
  }
  return r;
}

#define X(M) static pbt::Reg reg_##M("conf/" #M, &prop<M>);
#ifdef GRP_A
GROUP_A(X)
#endif
#ifdef GRP_B
GROUP_B(X)
#endif
#ifdef GRP_C
GROUP_C(X)
#endif
#ifdef GRP_D
GROUP_D(X)
#endif
#ifdef GRP_E
GROUP_E(X)
#endif

#ifdef GRP_M
// Optionals of different kinds in one program: mixed comparisons, conversions through values, hashing, make_optional, monads, containers.
  #include <algorithm>
  #include <map>
  #include <tuple>
  #include <unordered_map>
struct SentD3
{
  static constexpr double value = 3.0;
};
struct Rec
{
  int n = 0;
  bool b = false;
  double d = 0;
  friend bool operator==(Rec const & x, Rec const & y) { return x.n == y.n && x.d == y.d; }
  friend bool operator!=(Rec const & x, Rec const & y) { return !(x == y); }
  friend bool operator<(Rec const & x, Rec const & y) { return x.n < y.n; }
};
using Tup = std::tuple<
    tiny::optional<int>,
    tiny::optional<int, 77>,
    tiny::optional_aip<int>,
    tiny::optional<short, 78>,
    tiny::optional<unsigned char>,
    tiny::optional<long long>,
    tiny::optional<double>,
    tiny::optional<float>,
    tiny::optional<bool>,
    tiny::optional_sentinel_via_type<int, SentInt>,
    tiny::optional_sentinel_via_type<double, SentD3>,
    tiny::optional_inplace<int, cm::NegativeManip>,
    std::optional<int>,
    std::optional<double>>;
constexpr std::size_t kT = std::tuple_size_v<Tup>;
template <class F, std::size_t... I>
void withIdx(unsigned k, F && f, std::index_sequence<I...>)
{
  ((k == I ? (f(std::integral_constant<std::size_t, I>{}), void()) : void()), ...);
}
template <class F>
void with(unsigned k, F && f)
{
  withIdx(k, f, std::make_index_sequence<kT>{});
}
static int small(unsigned v)
{
  int const tab[] = {0, 1, 2, 5, 76, 79, 127, 100};
  return tab[v % 8];
}
template <class O>
uint64_t ob(O const & o)
{
  return o.has_value() ? 3 + static_cast<uint64_t>(static_cast<long long>(*o) + 1000) : 1;
}
void misc(pbt::Src & s)
{
  Tup t;
  std::vector<tiny::optional<double>> vec;
  std::map<tiny::optional<int, 77>, int> mp;
  std::unordered_map<tiny::optional<int>, int> ump;
  tiny::optional<Rec, &Rec::n, 4711> r1;
  tiny::optional<Rec> r2;
  unsigned const n = 4 + s.draw(36);
  bool nt = false;
  for (unsigned k = 0; k < n; ++k) {
    unsigned const op0 = s.draw(19), op = op0 < 11 ? op0 : op0 < 15 ? 0 : 1, i = s.draw(kT), j = s.draw(kT), v = s.draw(8), w = s.draw(4);
    s.note("%u(%u,%u,%u,%u) ", op, i, j, v, w);
    s.transcript(op);
    with(i, [&](auto I) {
      auto & a = std::get<I>(t);
      using A = std::decay_t<decltype(a)>;
      using V = typename A::value_type;
      switch (op) {
      case 0:
        switch (w) {
        case 0: a = static_cast<V>(small(v)); break;
        case 1: a.emplace(static_cast<V>(small(v))); break;
        case 2: a = A(std::in_place, static_cast<V>(small(v))); break;
        default: a = std::nullopt; break;
        }
        break;
      case 1:
        with(j, [&](auto J) {
          auto const & b = std::get<J>(t);
          s.transcript((a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5);
          s.transcript((b == a) | (b != a) << 1 | (b < a) << 2 | (b <= a) << 3 | (b > a) << 4 | (b >= a) << 5);
          nt = nt || (a.has_value() != b.has_value());
        });
        break;
      case 2: {
        double const x = small(v);
        s.transcript((a == x) | (x == a) << 1 | (a < x) << 2 | (x < a) << 3 | (a >= x) << 4 | (x >= a) << 5 | (a != x) << 6 | (x <= a) << 7);
        s.transcript((a == std::nullopt) | (std::nullopt == a) << 1 | (a > std::nullopt) << 2 | (std::nullopt >= a) << 3 | (std::nullopt != a) << 4);
        break;
      }
      case 3: {
        std::size_t const h = std::hash<A>{}(a);
        s.transcript(a.has_value() ? h == std::hash<V>{}(*a) : h == std::hash<A>{}(A()));
        break;
      }
      case 4:
        with(j, [&](auto J) {
          auto & b = std::get<J>(t);
          using B = typename std::decay_t<decltype(b)>::value_type;
          if (a.has_value() && static_cast<int>(*a) >= 0 && static_cast<int>(*a) != 77 && static_cast<int>(*a) != 78 && static_cast<int>(*a) != 3) {
            b = static_cast<B>(*a);
          }
        });
        break;
      case 5: {
        A const fresh = doTransformTo<A>(a, v);
        s.transcript(ob(fresh));
        break;
      }
      case 6: {
        auto res = doTransform(a, [](auto x) { return static_cast<double>(x) * 2; });
        s.transcript(ob(res));
        vec.push_back(res.has_value() ? tiny::optional<double>(*res) : tiny::optional<double>());
        auto res2 = doTransform(std::as_const(a), [](auto x) { return static_cast<bool>(static_cast<int>(x) & 1); });
        s.transcript(ob(res2));
        auto res3 = doAndThen(a, [&](auto x) { return static_cast<int>(x) % 2 ? tiny::make_optional<int, 99>(static_cast<int>(x) % 90) : tiny::optional<int, 99>(); });
        s.transcript(ob(res3));
        break;
      }
      case 7: s.transcript(static_cast<uint64_t>(static_cast<int>(a.value_or(static_cast<V>(small(v)))))); break;
      case 8:
        if (w & 1) {
          tiny::optional<int, 77> key;
          if (a.has_value() && static_cast<int>(*a) != 77) {
            key = static_cast<int>(*a);
          }
          mp[key] += 1;
          ump[key.has_value() ? tiny::optional<int>(*key) : tiny::optional<int>()] += 1;
        }
        else {
          std::sort(vec.begin(), vec.end());
          if (vec.size() > 6) {
            vec.erase(vec.begin() + v % 6);
          }
        }
        break;
      case 9: {
        A x;
        swap(x, a);
        s.transcript(ob(a));
        if (w & 1) {
          a.swap(x);
        }
        else {
          a = std::move(x);
        }
        break;
      }
      default:
        switch (w) {
        case 0: r1 = Rec{small(v), (v & 1) != 0, v * 0.5}; break;
        case 1: r2 = r1.has_value() ? tiny::make_optional(*r1) : tiny::optional<Rec>(std::nullopt); break;
        case 2:
          r1.reset();
          if (r2) {
            r2->n += 1;
          }
          break;
        default: s.transcript((r1 == r2) | (r2 < r1) << 1 | (r1 != r2) << 2); break;
        }
        s.transcript(r1 ? static_cast<uint64_t>(r1->n) + r1->b + static_cast<uint64_t>(r1->d * 2) : 0xeee);
        s.transcript(r2 ? static_cast<uint64_t>(r2->n) + r2->b + static_cast<uint64_t>(r2->d * 2) : 0xeee);
        break;
      }
      s.transcript(ob(a));
    });
    s.transcript(vec.size());
    for (auto const & e : vec) {
      s.transcript(ob(e));
    }
    for (auto const & e : mp) {
      s.transcript(ob(e.first) * 16 + static_cast<uint64_t>(e.second) + 64 * static_cast<uint64_t>(ump[e.first.has_value() ? tiny::optional<int>(*e.first) : tiny::optional<int>()]));
    }
  }
  if (nt) {
    s.nontrivial();
  }
}
static pbt::Reg regMisc("conf/misc", &misc, 800);
#endif
