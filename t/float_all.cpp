// Exhaustive: all 2^32 bit patterns of float (and of pointers on 32 bit): exactly one is the empty one, all others
// survive construction, assignment to an engaged optional and copying. Usage: float_all CHUNK NCHUNKS
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <tiny/optional.h>

template <class T>
struct S
{
  char pre;
  T flag;
  char post;
};

template <class T>
static void barrier(T const & t)
{
  asm volatile("" : : "r"(&t) : "memory");
}

template <class T>
static unsigned long long run(char const * name, unsigned chunk, unsigned chunks)
{
  tiny::optional<T> const empty;
  uint32_t res;
  memcpy(&res, static_cast<void const *>(&empty), 4);
  uint64_t const lo = (uint64_t(1) << 32) * chunk / chunks, hi = (uint64_t(1) << 32) * (chunk + 1) / chunks;
  unsigned long long n = 0;
  float const one = 1.0f;
  T prev;
  memcpy(&prev, &one, 4);
  tiny::optional<T> re(prev);
  for (uint64_t i = lo; i < hi; ++i) {
    uint32_t const bits = static_cast<uint32_t>(i);
    if (bits == res) {
      continue;
    }
    if (sizeof(void *) == 4 && (bits & 0x7f800000u) == 0x7f800000u && !(bits & 0x00400000u) && std::is_same_v<T, float>) {
      continue; // x87
    }
    T v;
    memcpy(&v, &bits, 4);
    barrier(v);
    tiny::optional<T> o(v);
    barrier(o);
    re = v;
    barrier(re);
    tiny::optional<S<T>, &S<T>::flag> m(S<T>{'a', v, 'b'});
    barrier(m);
    uint32_t a, b, c;
    memcpy(&a, &*o, 4);
    memcpy(&b, &*re, 4);
    memcpy(&c, &m->flag, 4);
    if (!o.has_value() || !re.has_value() || !m.has_value() || a != bits || b != bits || c != bits) {
      printf("FAIL %s bits %08x: construct has_value=%d bits %08x; assign has_value=%d bits %08x; member has_value=%d bits %08x\n", name, bits, o.has_value(), a, re.has_value(), b, m.has_value(), c);
      exit(10);
    }
    ++n;
  }
  return n;
}

int main(int, char ** argv)
{
  unsigned const c = static_cast<unsigned>(atoi(argv[1])), k = static_cast<unsigned>(atoi(argv[2]));
  unsigned long long n = run<float>("float", c, k);
  if (sizeof(void *) == 4) {
    n += run<void *>("void*", c, k);
  }
  printf("OK %llu\n", n);
}
