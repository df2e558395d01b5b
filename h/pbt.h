// Small property-based-testing engine. All random choices of a case come from a recorded stream of choices (Src), so
// that every case can be replayed and shrunk. Works with every compiler/architecture/sanitizer combination we build.
//
//   binary --run --seed S --cases N --stats FILE [--filter SUBSTR] [--fail FILE]   -> exit 0 ok, 10 failure found
//   binary --replay PROP CHOICES(comma separated)                                  -> exit 0 ok, 10 failure
//   binary --list
//
// The cases run in a forked child that shares the choice buffer with the parent, so that crashes, failed asserts,
// std::terminate and sanitizer reports are failures just like a failed oracle, and are shrunk in the same way.
#pragma once
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

#if defined(__GNUC__) && !defined(__clang__)
  #pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
#endif

namespace pbt
{
constexpr unsigned kMaxChoices = 1u << 15;
constexpr unsigned kNoteBytes = 1u << 15;
constexpr unsigned kMaxLabels = 64;
constexpr unsigned kDistinctBits = 22;

struct Shared
{
  uint32_t n; // number of recorded choices of the current case
  uint32_t choices[kMaxChoices];
  char message[2048];
  char note[kNoteBytes];
  uint32_t noteLen;
  uint64_t evaluations;
  uint64_t nontrivial;
  uint64_t distinctNontrivial;
  uint64_t transcript; // combined hash of everything passed to Src::transcript()
  uint64_t labelCount[kMaxLabels];
  char labelName[kMaxLabels][48];
  uint64_t caseIndex;
  uint32_t propIndex;
  uint8_t distinct[1u << (kDistinctBits - 3)]; // bit set used to count distinct non-trivial cases
};

inline Shared * g = nullptr;
inline bool gNoting = false;

inline uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t hashStr(char const * s)
{
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) {
    h = (h ^ (unsigned char)*s) * 1099511628211ull;
  }
  return mix(h);
}

[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(char const * fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g->message, sizeof g->message, fmt, ap);
  va_end(ap);
#ifdef PBT_FUZZ
  fprintf(stderr, "ORACLE: %s\n", g->message);
  abort();
#else
  _exit(77);
#endif
}

#define PBT_CHECK(cond, ...)                                                                                           \
  do {                                                                                                                 \
    if (!(cond)) {                                                                                                     \
      ::pbt::fail(__VA_ARGS__);                                                                                        \
    }                                                                                                                  \
  } while (0)

// Source of all choices of a case.
class Src
{
public:
  explicit Src(uint64_t seed)
    : state(seed)
    , random(true)
  {
    g->n = 0;
  }

  Src(uint32_t const * in, uint32_t count)
    : random(false)
    , in(in)
    , count(count)
  {
    g->n = 0;
  }

  // Uniform in [0, n); n==0 means the full 32 bit range. Shrinks towards 0.
  uint32_t draw(uint32_t n)
  {
    uint32_t v;
    if (random) {
      state += 0x9e3779b97f4a7c15ull;
      v = static_cast<uint32_t>(mix(state) >> 16);
    }
    else {
      v = pos < count ? in[pos] : 0;
      ++pos;
    }
    if (n != 0) {
      v %= n;
    }
    if (g->n < kMaxChoices) {
      g->choices[g->n] = v;
      g->n = g->n + 1;
    }
    return v;
  }

  bool flip() { return draw(2) == 1; }
  // True with probability num/den; shrinks to false.
  bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
  uint64_t bits64()
  {
    uint64_t const a = draw(0);
    return (a << 32) | draw(0);
  }
  template <class T, unsigned N>
  T const & pick(T const (&arr)[N])
  {
    return arr[draw(N)];
  }

  // Marks the case as non-trivial by the rule of the property.
  void nontrivial() { isNontrivial = true; }

  void label(char const * name)
  {
    for (unsigned i = 0; i < kMaxLabels; ++i) {
      if (g->labelName[i][0] == 0) {
        strncpy(g->labelName[i], name, sizeof g->labelName[i] - 1);
      }
      if (strncmp(g->labelName[i], name, sizeof g->labelName[i] - 1) == 0) {
        ++g->labelCount[i];
        return;
      }
    }
  }

  __attribute__((format(printf, 2, 3))) void note(char const * fmt, ...)
  {
    if (!gNoting) {
      return;
    }
    va_list ap;
    va_start(ap, fmt);
    int const k = vsnprintf(g->note + g->noteLen, kNoteBytes - g->noteLen, fmt, ap);
    va_end(ap);
    if (k > 0) {
      g->noteLen += static_cast<uint32_t>(k);
      if (g->noteLen > kNoteBytes - 1) {
        g->noteLen = kNoteBytes - 1;
      }
    }
  }

  // Adds to the transcript of the run (compared across configurations).
  void transcript(uint64_t v) { trans = mix(trans ^ v) + 1; }

  bool isNontrivial = false;
  uint64_t trans = 0;

private:
  uint64_t state = 0;
  bool random;
  uint32_t const * in = nullptr;
  uint32_t count = 0;
  uint32_t pos = 0;
};

using Fn = void (*)(Src &);

struct Prop
{
  std::string name;
  Fn fn;
  unsigned weight; // number of cases is cases*weight/100
};

inline std::vector<Prop> & props()
{
  static std::vector<Prop> v;
  return v;
}

struct Reg
{
  Reg(std::string name, Fn fn, unsigned weight = 100) { props().push_back({std::move(name), fn, weight}); }
};

inline void countCase(Src & s, uint64_t propHash)
{
  ++g->evaluations;
  g->transcript += mix(propHash ^ s.trans ^ mix(g->caseIndex));
  if (s.isNontrivial) {
    ++g->nontrivial;
    uint64_t h = propHash;
    for (uint32_t i = 0; i < g->n; ++i) {
      h = mix(h ^ g->choices[i]);
    }
    uint64_t const bit = h & ((1u << kDistinctBits) - 1);
    if (!(g->distinct[bit >> 3] & (1u << (bit & 7)))) {
      g->distinct[bit >> 3] |= static_cast<uint8_t>(1u << (bit & 7));
      ++g->distinctNontrivial;
    }
  }
}

inline void limitChild(unsigned cpuSeconds)
{
  struct rlimit rl;
  rl.rlim_cur = cpuSeconds;
  rl.rlim_max = cpuSeconds + 5;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
}

// Ends a batch in which one case has used more than 15 s of processor time (a hang), without a system call per case.
inline void watchdogTick(int)
{
  static uint64_t last = ~0ull;
  static unsigned same = 0;
  same = g->caseIndex == last ? same + 1 : 0;
  last = g->caseIndex;
  if (same >= 3) {
    signal(SIGXCPU, SIG_DFL);
    raise(SIGXCPU);
  }
}

inline void watchCases()
{
#if defined(__SANITIZE_THREAD__)
  return; // The tick may come in any thread, which would be reported as a race.
#elif defined(__has_feature)
  #if __has_feature(thread_sanitizer)
  return;
  #endif
#endif
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = watchdogTick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval tv;
  tv.it_interval.tv_sec = tv.it_value.tv_sec = 5;
  tv.it_interval.tv_usec = tv.it_value.tv_usec = 0;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

// Runs one case from explicit choices in a child. Returns true if it fails.
inline bool failsInChild(Prop const & p, std::vector<uint32_t> const & choices, bool noting, char const * errFile)
{
  g->message[0] = 0;
  g->noteLen = 0;
  g->note[0] = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t const pid = fork();
  if (pid == 0) {
    limitChild(20);
    int const fd = open(errFile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      dup2(fd, 2);
      dup2(fd, 1);
    }
    gNoting = noting;
    Src s(choices.data(), static_cast<uint32_t>(choices.size()));
    p.fn(s);
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(status)) {
    if (WEXITSTATUS(status) == 0) {
      return false;
    }
    if (WEXITSTATUS(status) != 77) {
      snprintf(g->message, sizeof g->message, "the case ended with exit status %d", WEXITSTATUS(status));
    }
  }
  else {
    snprintf(g->message, sizeof g->message, "the case was killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
  }
  return true;
}

inline double nowSeconds()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

inline std::vector<uint32_t> shrink(Prop const & p, std::vector<uint32_t> best, char const * errFile)
{
  double const deadline = nowSeconds() + 20.0;
  unsigned attempts = 0;
  auto tryIt = [&](std::vector<uint32_t> const & cand) {
    if (++attempts > 4000 || nowSeconds() > deadline) {
      return false;
    }
    if (!failsInChild(p, cand, false, errFile)) {
      return false;
    }
    // The child may have consumed fewer choices than given.
    std::vector<uint32_t> used(g->choices, g->choices + g->n);
    best = used.size() < cand.size() ? used : cand;
    return true;
  };
  bool progress = true;
  while (progress && attempts <= 4000 && nowSeconds() < deadline) {
    progress = false;
    // Delete chunks
    for (size_t chunk = best.size() / 2; chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.size();) {
        std::vector<uint32_t> cand(best.begin(), best.begin() + static_cast<long>(i));
        cand.insert(cand.end(), best.begin() + static_cast<long>(i + chunk), best.end());
        if (tryIt(cand)) {
          progress = true;
        }
        else {
          i += chunk > 4 ? chunk / 2 : 1;
        }
      }
    }
    // Reduce values
    for (size_t i = 0; i < best.size(); ++i) {
      if (best[i] == 0) {
        continue;
      }
      std::vector<uint32_t> cand = best;
      cand[i] = 0;
      if (tryIt(cand)) {
        progress = true;
        continue;
      }
      uint32_t lo = 0;
      while (i < best.size() && best[i] > lo + 1) {
        cand = best;
        cand[i] = lo + (best[i] - lo) / 2;
        if (tryIt(cand)) {
          progress = true;
        }
        else {
          lo = lo + (best[i] - lo) / 2;
        }
      }
    }
  }
  return best;
}

inline std::string jsonEscape(char const * s)
{
  std::string r;
  for (; *s; ++s) {
    unsigned char const c = static_cast<unsigned char>(*s);
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    }
    else if (c == '\n') {
      r += "\\n";
    }
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else {
      r += static_cast<char>(c);
    }
  }
  return r;
}

inline std::string choicesToString(std::vector<uint32_t> const & v)
{
  std::string r;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) {
      r += ',';
    }
    r += std::to_string(v[i]);
  }
  return r;
}

inline int mainImpl(int argc, char ** argv)
{
  g = static_cast<Shared *>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g == MAP_FAILED) {
    perror("mmap");
    return 3;
  }
  std::string mode, filter, statsFile, failFile, replayProp, replayChoices;
  uint64_t seed = 1, cases = 100;
  long dumpCase = -1;
  for (int i = 1; i < argc; ++i) {
    std::string const a = argv[i];
    if (a == "--run" || a == "--list" || a == "--dump") {
      mode = a;
    }
    else if ((a == "--replay" || a == "--eval") && i + 2 < argc) {
      mode = a;
      replayProp = argv[++i];
      replayChoices = argv[++i];
    }
    else if (a == "--seed" && i + 1 < argc) {
      seed = strtoull(argv[++i], nullptr, 10);
    }
    else if (a == "--cases" && i + 1 < argc) {
      cases = strtoull(argv[++i], nullptr, 10);
    }
    else if (a == "--filter" && i + 1 < argc) {
      filter = argv[++i];
    }
    else if (a == "--case" && i + 1 < argc) {
      dumpCase = atol(argv[++i]);
    }
    else if (a == "--stats" && i + 1 < argc) {
      statsFile = argv[++i];
    }
    else if (a == "--fail" && i + 1 < argc) {
      failFile = argv[++i];
    }
    else {
      fprintf(stderr, "bad argument %s\n", a.c_str());
      return 3;
    }
  }
  if (mode == "--list") {
    for (auto const & p : props()) {
      puts(p.name.c_str());
    }
    return 0;
  }
  std::string const errFile = (statsFile.empty() ? std::string("/dev/null") : statsFile + ".err");
  if (mode == "--dump") {
    // One line per case of the property: the hash of its transcript. The choices of case `dumpCase` are printed as well.
    for (auto const & p : props()) {
      if (p.name == filter) {
        uint64_t const propHash = hashStr(p.name.c_str());
        for (uint64_t c = 0; c < cases * p.weight / 100; ++c) {
          Src s(mix(mix(seed) ^ propHash ^ mix(c * 2 + 1)));
          p.fn(s);
          if (dumpCase < 0) {
            printf("%016llx\n", (unsigned long long)s.trans);
          }
          else if (static_cast<uint64_t>(dumpCase) == c) {
            printf("%s\n", choicesToString(std::vector<uint32_t>(g->choices, g->choices + g->n)).c_str());
            return 0;
          }
        }
        return 0;
      }
    }
    return 3;
  }
  if (mode == "--replay" || mode == "--eval") {
    std::vector<uint32_t> c;
    char const * s = replayChoices.c_str();
    while (*s) {
      char * e;
      c.push_back(static_cast<uint32_t>(strtoul(s, &e, 10)));
      s = (*e == ',') ? e + 1 : e;
      if (e == s && *e && *e != ',') {
        break;
      }
    }
    for (auto const & p : props()) {
      if (p.name == replayProp && mode == "--eval") {
        gNoting = true;
        Src s(c.data(), static_cast<uint32_t>(c.size()));
        p.fn(s);
        printf("%016llx %s\n", (unsigned long long)s.trans, g->note);
        return 0;
      }
      if (p.name == replayProp) {
        bool const f = failsInChild(p, c, true, statsFile.empty() ? "/dev/stderr" : errFile.c_str());
        printf("%s\n%s\n", g->note, g->message);
        return f ? 10 : 0;
      }
    }
    fprintf(stderr, "no property %s\n", replayProp.c_str());
    return 3;
  }
  if (mode != "--run") {
    return 3;
  }

  std::vector<std::string> samples;
  std::string failJson;
  std::string perProp;
  for (size_t pi = 0; pi < props().size() && failJson.empty(); ++pi) {
    Prop const & p = props()[pi];
    if (!filter.empty() && p.name.find(filter) == std::string::npos) {
      continue;
    }
    uint64_t const propHash = hashStr(p.name.c_str());
    uint64_t n = cases * p.weight / 100;
    if (n == 0) {
      n = 1;
    }
    // A sample of the generated cases, written out: one case of each 1/4 of the properties at most.
    uint64_t const evalBefore = g->evaluations;
    uint64_t const transBefore = g->transcript;
    g->message[0] = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t const pid = fork();
    if (pid == 0) {
      limitChild(600);
      watchCases();
      int const fd = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0) {
        dup2(fd, 2);
        dup2(fd, 1);
      }
      for (uint64_t c = 0; c < n; ++c) {
        g->caseIndex = c;
        gNoting = (c == 1);
        if (gNoting) {
          g->noteLen = 0;
          g->note[0] = 0;
        }
        Src s(mix(mix(seed) ^ propHash ^ mix(c * 2 + 1)));
        p.fn(s);
        countCase(s, propHash);
      }
      _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
      if (samples.size() < 12 && (pi % 5 == 0 || props().size() < 12) && g->noteLen > 0) {
        std::string s = p.name + ": " + g->note;
        if (s.size() > 700) {
          s.resize(700);
        }
        samples.push_back(s);
      }
      char b[256];
      snprintf(
          b,
          sizeof b,
          "%s\"%s\":[%llu,\"%016llx\"]",
          perProp.empty() ? "" : ",",
          jsonEscape(p.name.c_str()).c_str(),
          (unsigned long long)(g->evaluations - evalBefore),
          (unsigned long long)(g->transcript - transBefore));
      perProp += b;
      continue;
    }
    // A failure. Confirm that it reproduces from the recorded choices, then shrink.
    std::string const firstMessage = g->message;
    std::vector<uint32_t> choices(g->choices, g->choices + g->n);
    bool const cpuLimit = WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL);
    int reproduced = 0;
    for (int k = 0; k < 3; ++k) {
      reproduced += failsInChild(p, choices, false, errFile.c_str()) ? 1 : 0;
    }
    if (reproduced != 3) {
      fprintf(
          stderr,
          "UNREPRODUCED %s: status %d, message '%s', reproduced %d of 3\n",
          p.name.c_str(),
          status,
          firstMessage.c_str(),
          reproduced);
      if (cpuLimit && reproduced == 0) {
        return 4; // The whole batch ran out of time or was killed, no single case fails.
      }
      return 5;
    }
    choices = shrink(p, choices, errFile.c_str());
    failsInChild(p, choices, true, errFile.c_str());
    std::string err;
    if (FILE * f = fopen(errFile.c_str(), "r")) {
      char b[3000];
      size_t const k = fread(b, 1, sizeof b - 1, f);
      b[k] = 0;
      err = b;
      fclose(f);
    }
    failJson = "{\"prop\":\"" + jsonEscape(p.name.c_str()) + "\",\"choices\":[" + choicesToString(choices)
               + "],\"message\":\"" + jsonEscape(g->message) + "\",\"trace\":\"" + jsonEscape(g->note)
               + "\",\"stderr\":\"" + jsonEscape(err.c_str()) + "\"}";
  }
  if (!errFile.empty() && errFile != "/dev/null") {
    unlink(errFile.c_str());
  }
  if (!statsFile.empty()) {
    FILE * f = fopen(statsFile.c_str(), "w");
    if (!f) {
      perror("stats");
      return 3;
    }
    fprintf(
        f,
        "{\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"transcript\":\"%016llx\",",
        (unsigned long long)g->evaluations,
        (unsigned long long)g->nontrivial,
        (unsigned long long)g->distinctNontrivial,
        (unsigned long long)g->transcript);
    fprintf(f, "\"props\":{%s},\"labels\":{", perProp.c_str());
    for (unsigned i = 0; i < kMaxLabels && g->labelName[i][0]; ++i) {
      fprintf(f, "%s\"%s\":%llu", i ? "," : "", jsonEscape(g->labelName[i]).c_str(), (unsigned long long)g->labelCount[i]);
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) {
      fprintf(f, "%s\"%s\"", i ? "," : "", jsonEscape(samples[i].c_str()).c_str());
    }
    fprintf(f, "],\"fail\":%s}\n", failJson.empty() ? "null" : failJson.c_str());
    fclose(f);
  }
  return failJson.empty() ? 0 : 10;
}
} // namespace pbt

#ifdef PBT_FUZZ
// Coverage-guided entry: the bytes are the choice stream.
extern "C" int LLVMFuzzerTestOneInput(uint8_t const * data, size_t size)
{
  using namespace pbt;
  if (!g) {
    g = static_cast<Shared *>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  }
  if (size < 4 || props().empty()) {
    return 0;
  }
  static std::vector<uint32_t> choices;
  choices.clear();
  uint32_t which;
  memcpy(&which, data, 4);
  for (size_t i = 4; i < size && choices.size() < 400; i += 2) {
    choices.push_back(static_cast<uint32_t>(data[i]) | (i + 1 < size ? static_cast<uint32_t>(data[i + 1]) << 8 : 0));
  }
  Prop const & p = props()[which % props().size()];
  Src s(choices.data(), static_cast<uint32_t>(choices.size()));
  p.fn(s);
  return 0;
}
#else
int main(int argc, char ** argv)
{
  return pbt::mainImpl(argc, argv);
}
#endif
