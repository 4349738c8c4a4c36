// Shared by the harnesses: randomness, the operation log, coverage counters and reporting.
// Include this BEFORE any nanostl header (the standard headers must come first).
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_

#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define CK_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define CK_ASAN 1
#endif
#endif

extern "C" {
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
}

namespace ck {

typedef uint64_t u64;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  long range(long lo, long hi) { return lo + static_cast<long>(below(static_cast<u64>(hi - lo + 1))); }
};

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
inline u64 hashmem(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  return mix(h, n);
}

struct State {
  const char* prop;
  u64 seed;
  unsigned shard, nshards;
  bool thorough;
  std::string out;
  u64 evaluations;
  u64 distinct_enumerated;  // distinct by construction (an enumeration without repetition)
  std::unordered_set<u64> distinct;
  std::map<std::string, u64> counters;
  std::map<std::string, double> maxima;
  std::vector<std::string> samples;
  // operation log of the current case
  enum { LINES = 64, WIDTH = 200 };
  char log[LINES][WIDTH];
  u64 nlog;
  char casename[256];
  State() : prop("?"), seed(1), shard(0), nshards(1), thorough(false), evaluations(0), distinct_enumerated(0), nlog(0) {
    casename[0] = 0;
  }
};
inline State& st() {
  static State* s = new State;
  return *s;
}

inline void dump_log() {
  State& s = st();
  fprintf(stderr, "case: property=%s seed=%llu shard=%u/%u %s\n", s.prop, (unsigned long long)s.seed, s.shard,
          s.nshards, s.casename);
  u64 from = s.nlog > State::LINES ? s.nlog - State::LINES : 0;
  for (u64 i = from; i < s.nlog; i++) fprintf(stderr, "  op %llu: %s\n", (unsigned long long)i, s.log[i % State::LINES]);
  fflush(stderr);
}

__attribute__((format(printf, 1, 2))) inline void begin_case(const char* f, ...) {
  State& s = st();
  va_list ap;
  va_start(ap, f);
  vsnprintf(s.casename, sizeof s.casename, f, ap);
  va_end(ap);
  s.nlog = 0;
}
__attribute__((format(printf, 1, 2))) inline void op(const char* f, ...) {
  State& s = st();
  va_list ap;
  va_start(ap, f);
  vsnprintf(s.log[s.nlog % State::LINES], State::WIDTH, f, ap);
  va_end(ap);
  s.nlog++;
}
inline std::string last_ops(unsigned n = 8) {
  State& s = st();
  std::string r = s.casename;
  u64 from = s.nlog > n ? s.nlog - n : 0;
  for (u64 i = from; i < s.nlog; i++) r += std::string("; ") + s.log[i % State::LINES];
  return r;
}

__attribute__((noreturn, format(printf, 1, 2))) inline void fail(const char* f, ...) {
  va_list ap;
  fflush(stdout);
  fprintf(stderr, "ORACLE: ");
  va_start(ap, f);
  vfprintf(stderr, f, ap);
  va_end(ap);
  fprintf(stderr, "\n");
  dump_log();
  _exit(3);
}
#define CK(cond, ...)                  \
  do {                                 \
    if (!(cond)) ck::fail(__VA_ARGS__); \
  } while (0)

// The harness itself can't go on (not a verdict about the code under test).
__attribute__((noreturn)) inline void harness_error(const char* m) {
  fprintf(stderr, "HARNESS-ERROR: %s\n", m);
  _exit(2);
}

inline void eval(u64 h, bool nontrivial) {
  State& s = st();
  s.evaluations++;
  if (nontrivial && s.distinct.size() < 400000) s.distinct.insert(h);
}
inline void enumerated(u64 n) {
  st().evaluations += n;
  st().distinct_enumerated += n;
}
inline void count(const char* name, u64 n = 1) { st().counters[name] += n; }
inline void maximum(const char* name, double v) {
  double& m = st().maxima[name];
  if (v > m) m = v;
}
inline void sample(const std::string& t, unsigned limit = 4) {
  if (st().samples.size() < limit) st().samples.push_back(t.substr(0, 600));
}

inline void init(int argc, char** argv, const char* prop) {
  State& s = st();
  s.prop = prop;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") s.seed = strtoull(v.c_str(), 0, 10);
    if (a == "--shard") s.shard = (unsigned)atoi(v.c_str());
    if (a == "--nshards") s.nshards = (unsigned)atoi(v.c_str());
    if (a == "--tier") s.thorough = v == "thorough";
    if (a == "--out") s.out = v;
  }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump_log);
}
inline Rng rng(u64 salt = 0) {
  State& s = st();
  Rng r(s.seed * 1000003ull + s.shard * 7919ull + salt * 104729ull + 17);
  for (int i = 0; i < 4; i++) r.next();
  return r;
}

inline std::string json_str(const std::string& t) {
  std::string r = "\"";
  for (size_t i = 0; i < t.size(); i++) {
    unsigned char c = (unsigned char)t[i];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return r + "\"";
}

inline int finish() {
  State& s = st();
  if (s.out.empty()) {
    printf("evaluations %llu distinct %zu enumerated %llu\n", (unsigned long long)s.evaluations, s.distinct.size(),
           (unsigned long long)s.distinct_enumerated);
    for (std::map<std::string, u64>::iterator i = s.counters.begin(); i != s.counters.end(); ++i)
      printf("  %s = %llu\n", i->first.c_str(), (unsigned long long)i->second);
    for (std::map<std::string, double>::iterator i = s.maxima.begin(); i != s.maxima.end(); ++i)
      printf("  max %s = %.9g\n", i->first.c_str(), i->second);
    for (size_t i = 0; i < s.samples.size(); i++) printf("  sample %s\n", s.samples[i].c_str());
    return 0;
  }
  FILE* f = fopen(s.out.c_str(), "w");
  if (!f) harness_error("cannot write the coverage file");
  fprintf(f, "{\"evaluations\": %llu, \"enumerated\": %llu, \"counters\": {", (unsigned long long)s.evaluations,
          (unsigned long long)s.distinct_enumerated);
  const char* sep = "";
  for (std::map<std::string, u64>::iterator i = s.counters.begin(); i != s.counters.end(); ++i, sep = ", ")
    fprintf(f, "%s%s: %llu", sep, json_str(i->first).c_str(), (unsigned long long)i->second);
  fprintf(f, "}, \"maxima\": {");
  sep = "";
  for (std::map<std::string, double>::iterator i = s.maxima.begin(); i != s.maxima.end(); ++i, sep = ", ")
    fprintf(f, "%s%s: %.9g", sep, json_str(i->first).c_str(), i->second);
  fprintf(f, "}, \"samples\": [");
  sep = "";
  for (size_t i = 0; i < s.samples.size(); i++, sep = ", ") fprintf(f, "%s%s", sep, json_str(s.samples[i]).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  FILE* g = fopen((s.out + ".hashes").c_str(), "wb");
  if (!g) harness_error("cannot write the coverage file");
  for (std::unordered_set<u64>::iterator i = s.distinct.begin(); i != s.distinct.end(); ++i) fwrite(&*i, 8, 1, g);
  fclose(g);
  return 0;
}

// Heap bytes in use according to the sanitizer's allocator, 0 when there is none.
inline size_t heap_bytes() {
  return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
}

// An element type that knows which of its instances are alive. Every use of a dead or never
// constructed instance, a double destruction, and an instance that is never destroyed is caught.
struct Tracked {
  static std::unordered_set<const void*>& live() {
    static std::unordered_set<const void*>* l = new std::unordered_set<const void*>;
    return *l;
  }
  struct Stats {
    u64 ctor, copy, assign, dtor;
  };
  static Stats& stats() {
    static Stats s = {0, 0, 0, 0};
    return s;
  }
  enum : uint32_t { ALIVE = 0x5ca1ab1eu, DEAD = 0xdeadc0deu };
  int v;
  uint32_t canary;
  int* heap;  // owned, so that skipped destructors leak and double ones are double frees

  void birth() {
    if (!live().insert(this).second) fail("an element was constructed over a live element");
    canary = ALIVE;
  }
  void check() const {
    if (canary != ALIVE || *heap != v) fail("an element that is not alive was used");
  }
  Tracked() : v(0), canary(0), heap(new int(0)) {
    stats().ctor++;
    birth();
  }
  Tracked(int x) : v(x), canary(0), heap(new int(x)) {
    stats().ctor++;
    birth();
  }
  Tracked(const Tracked& o) : v(0), canary(0), heap(0) {
    o.check();
    v = o.v;
    heap = new int(v);
    stats().copy++;
    birth();
  }
  Tracked& operator=(const Tracked& o) {
    check();
    o.check();
    int x = o.v;
    *heap = x;
    v = x;
    stats().assign++;
    return *this;
  }
  ~Tracked() {
    stats().dtor++;
    check();
    if (live().erase(this) != 1) fail("an element was destroyed twice or never constructed");
    canary = DEAD;
    delete heap;
    heap = 0;
  }
  int get() const {
    check();
    return v;
  }
};
inline bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
inline bool operator!=(const Tracked& a, const Tracked& b) { return a.get() != b.get(); }
inline bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
inline bool operator>(const Tracked& a, const Tracked& b) { return a.get() > b.get(); }

}  // namespace ck

#endif  // VERIF_COMMON_H_
