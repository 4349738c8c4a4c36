// Lengths beyond 2^32, at full speed and without sanitizers: what counts or converts a length in 32 bits goes wrong here.
// MODE is the number of the property.
#include "common.h"
#include <sys/mman.h>
#include <sys/resource.h>
#if MODE == 11
#include "fast_float/fast_float.h"
#elif MODE == 16
#include "__hashfunc.h"
#else
#define NANOSTL_IMPLEMENTATION
#include "nanosstream.h"
#include "nanostring.h"
#include "nanovalarray.h"
#include "nanovector.h"
#endif

namespace {
typedef unsigned char u8;
const size_t N = ((size_t)1 << 32) + 7;

size_t available() {
  FILE* f = fopen("/proc/meminfo", "r");
  char line[256];
  unsigned long long kb = 0;
  while (f && fgets(line, sizeof line, f))
    if (sscanf(line, "MemAvailable: %llu", &kb) == 1) break;
  if (f) fclose(f);
  return (size_t)kb << 10;
}
// Memory that costs nothing where it is not written.
char* area(size_t n) {
  void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    ck::count("no memory for lengths beyond 2^32");
    exit(ck::finish());
  }
  return (char*)p;
}
// Positions where a truncated index or length shows, and random ones.
std::vector<size_t> places(ck::Rng& r, size_t n) {
  std::vector<size_t> p;
  for (int b = 15; b <= 32; b++)
    for (int d = -2; d <= 2; d++)
      if (((size_t)1 << b) + (size_t)d < n) p.push_back(((size_t)1 << b) + (size_t)d);
  for (size_t i = 0; i < 8; i++) p.push_back(i), p.push_back(n - 1 - i);
  for (int i = 0; i < 200; i++) p.push_back(r.below(n));
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  return p;
}
u8 mark(size_t i) { return (u8)(ck::mix(1, i) % 255 + 1); }
void done(const char* what, size_t n) {
  ck::count(what);
  ck::eval(ck::mix(n, ck::hashmem(what, strlen(what))), true);
}

#if MODE == 1 || MODE == 12
#if MODE == 1
typedef nanostl::vector<u8> C;
#else
typedef nanostl::valarray<u8> C;
#endif
void same(const C& c, const std::vector<size_t>& at, size_t n, const char* what) {
  CK(c.size() == n, "%s: size is %llu, expected %zu", what, (unsigned long long)c.size(), n);
  CK((size_t)(c.end() - c.begin()) == n, "%s: end() is %zu behind begin()", what, (size_t)(c.end() - c.begin()));
  CK(!c.empty() && c.capacity() >= n, "%s: empty() or capacity() is wrong", what);
  for (size_t i = 0; i < at.size(); i++)
    if (at[i] < n) CK(c[at[i]] == mark(at[i]) && c.begin()[at[i]] == mark(at[i]), "%s: element %zu of %zu is wrong", what, at[i], n);
}
void work(ck::Rng& r) {
  std::vector<size_t> at = places(r, N);
  C c;
  c.resize(N);
  ck::op("resize(%zu)", N);
  CK(c.size() == N, "resize(%zu) gives size %llu", N, (unsigned long long)c.size());
  for (size_t i = 0; i < at.size(); i++) CK(c[at[i]] == 0, "element %zu of %zu that resize added is not zero", at[i], N);
  for (size_t i = 0; i < at.size(); i++) c[at[i]] = mark(at[i]);
  same(c, at, N, "resize");
  done("resized", N);
  {
    C d;
    ck::op("swap");
    d.swap(c);
    same(d, at, N, "swap");
    CK(c.empty(), "swap: the other one is not empty");
    c.swap(d);
  }
  ck::op("erase at the end");
  c.erase(c.end() - 1);
  same(c, at, N - 1, "erase");
#if MODE == 1
  ck::op("push_back");  // fits the capacity
  c.push_back(mark(N - 1));
  same(c, at, N, "push_back");
  const size_t n = N + 1;
  c.push_back(77);  // moves to a larger place
  CK(c[N] == 77, "the element appended at %zu is wrong", N);
  same(c, at, n, "push_back that grows");
  c.pop_back();
#else
  c.resize(N + 1);
  CK(c[N - 1] == 0 && c[N] == 0, "an element that resize added is not zero");
  c[N - 1] = mark(N - 1);
  const size_t n = N + 1;
#endif
  done("grown", n);
  same(c, at, c.size(), "after growth");
  if (!ck::st().thorough) return;
  C d(c);
  ck::op("copy");
  same(d, at, c.size(), "copy");
  done("copied", N);
}

#elif MODE == 4 || MODE == 5 || MODE == 10 || MODE == 22
void same(const nanostl::string& s, const char* p, const std::vector<size_t>& at, size_t n, const char* what) {
  CK(s.size() == n && s.length() == n && !s.empty(), "%s: size is %llu, expected %zu", what, (unsigned long long)s.size(), n);
  CK(s.c_str()[n] == 0, "%s: no terminator", what);
  for (size_t i = 0; i < at.size(); i++)
    if (at[i] < n) CK(s[at[i]] == p[at[i]] && s.at(at[i]) == p[at[i]] && s.c_str()[at[i]] == p[at[i]], "%s: byte %zu of %zu is wrong", what, at[i], n);
}
#if MODE == 4
void work(ck::Rng& r) {
  char* p = area(N + 1);
  std::vector<size_t> at = places(r, N);
  for (size_t i = 0; i < at.size(); i++) p[at[i]] = (char)mark(at[i]);
  nanostl::string s(p, (unsigned long long)N);
  ck::op("string of %zu bytes", N);
  same(s, p, at, N, "construction from a pointer and a count");
  done("constructed", N);
  s += "tail";
  CK(s.size() == N + 4 && memcmp(s.c_str() + N, "tail", 5) == 0, "+= behind %zu bytes went wrong", N);
  same(s, p, at, s.size(), "+=");
  done("appended", N);
  if (!ck::st().thorough) return;
  s.erase(&s[N]);
  CK(s.size() == N + 3 && memcmp(s.c_str() + N, "ail", 4) == 0, "erase behind %zu bytes went wrong", N);
  nanostl::string t(s);
  same(t, p, at, t.size(), "copy");
  done("copied", N);
}
#elif MODE == 5
int sign(int v) { return (v > 0) - (v < 0); }
void work(ck::Rng& r) {
  // two strings alike up to their ends, 2^32 bytes on
  char* p = area(N + 1);
  p[N - 1] = 'a';
  const nanostl::string a(p, (unsigned long long)N);
  nanostl::string b("\0b", (unsigned long long)2);  // a prefix of a would be shorter by exactly 2^32 bytes and more
  ck::op("%zu bytes and 2", N);
  CK(a.compare(b) < 0 && b.compare(a) > 0 && a < b && !(a == b), "a string of %zu bytes compares wrongly with a short one", N);
  b = nanostl::string(p, (unsigned long long)(N - ((size_t)1 << 32)));
  CK(a.compare(b) > 0 && b.compare(a) < 0 && a > b && !(a == b) && a != b && !(a < b), "a string of %zu bytes does not compare greater than its prefix of %llu", N, (unsigned long long)b.size());
  CK(a.compare("") > 0 && a > "" && !(a == ""), "a string of %zu bytes compares wrongly with an empty C string", N);
  done("compared with a prefix", N);
  if (!ck::st().thorough) return;
  b = a;
  CK(a.compare(b) == 0 && a == b && !(a != b) && !(a < b) && !(a > b), "a copy of %zu bytes does not compare equal", N);
  b[N - 1] = 'b';
  CK(sign(a.compare(b)) == -1 && sign(b.compare(a)) == 1 && a < b && a != b && !(a > b) && !(a == b), "strings that differ in byte %zu compare wrongly", N - 1);
  done("compared to the end", N);
}
#elif MODE == 10
void work(ck::Rng& r) {
  char* p = area(N + 1);
  memset(p, '0', N);
  struct {
    const char *front, *back;
    double want;
  } c[] = {
      {"", "25", 25},             // zeros, a number
      {"1.5", "x", NAN},          // a number, then junk 2^32 bytes on
      {"-0.", "7", -0.0},         // far below the smallest
      {"1e", "7", 1e7},           // an exponent with zeros
      {"0.5xxxx", "", NAN},       // a number, junk, zeros
      {"0e", "e", NAN},
  };
  const size_t n = ck::st().thorough ? 6 : 3;
  nanostl::string s(p, (unsigned long long)N);
  char* q = &s[0];
  for (size_t i = 0; i < n; i++) {
    memset(q, '0', 16);
    memset(q + N - 16, '0', 16);
    memcpy(q, c[i].front, strlen(c[i].front));
    memcpy(q + N - strlen(c[i].back), c[i].back, strlen(c[i].back));
    if (i == 1) memset(q + 3, 'x', 8);
    ck::begin_case("text of %zu bytes: %s000...%s", N, c[i].front, c[i].back);
    const double d = nanostl::stod(s);
    const float f = nanostl::stof(s);
    CK(std::isnan(c[i].want) ? std::isnan(d) : d == c[i].want && std::signbit(d) == std::signbit(c[i].want), "stod of %zu bytes %s000...%s is %g", N, c[i].front, c[i].back, d);
    CK(std::isnan(c[i].want) ? std::isnan(f) : f == c[i].want && std::signbit(f) == std::signbit(c[i].want), "stof of %zu bytes %s000...%s is %g", N, c[i].front, c[i].back, f);
    done("converted", i);
  }
}
#else
void work(ck::Rng& r) {
  char* p = area(N + 1);
  std::vector<size_t> at = places(r, N);
  for (size_t i = 0; i < at.size(); i++) p[at[i]] = (char)mark(at[i]);
  nanostl::string s(p, (unsigned long long)N);
  nanostl::stringstream ss;
  ss << nanostl::string("ab");
  ss << s;
  ss << nanostl::string("cd");
  ck::op("a stream of %zu bytes", N + 4);
  const nanostl::string& t = ss.str();
  CK(t.size() == N + 4, "a stream of %zu bytes has %llu", N + 4, (unsigned long long)t.size());
  CK(memcmp(t.c_str(), "ab", 2) == 0 && memcmp(t.c_str() + N + 2, "cd", 3) == 0, "a stream of %zu bytes has the wrong ends", N + 4);
  for (size_t i = 0; i < at.size(); i++) CK(t[at[i] + 2] == p[at[i]], "byte %zu of a stream of %zu bytes is wrong", at[i] + 2, N + 4);
  done("streamed", N);
}
#endif

#elif MODE == 11
template <class T>
void parse(const char* b, const char* e, T want, const char* what) {
  T v = (T)77;
  fast_float::from_chars_result a = fast_float::from_chars(b, e, v);
  ck::op("%s, %zu bytes", what, (size_t)(e - b));
  CK(a.ec == nanostl::errc() && a.ptr == e, "from_chars of %zu bytes (%s) stops after %zu", (size_t)(e - b), what, (size_t)(a.ptr - b));
  CK(memcmp(&v, &want, sizeof v) == 0, "from_chars of %zu bytes (%s) gives %g, not %g", (size_t)(e - b), what, (double)v, (double)want);
  done(what, (size_t)(e - b));
}
void work(ck::Rng& r) {
  char* p = area(N + 64);
  memset(p, '0', N + 64);
  memcpy(p + N, "25", 2);
  parse<double>(p, p + N + 2, 25.0, "zeros before a number");
  parse<float>(p, p + N + 2, 25.0f, "zeros before a number");
  // N digits behind the point, of which the last two are 25
  p[1] = '.';
  int k = sprintf(p + N, "25e%zu", N);
  parse<double>(p, p + N + (size_t)k, 25.0, "a fraction and an exponent that cancel out");
  parse<float>(p, p + N + (size_t)k, 25.0f, "a fraction and an exponent that cancel out");
  k = sprintf(p + N, "25");
  parse<double>(p, p + N + (size_t)k, 0.0, "a tiny fraction");
  p[0] = '-';
  p[1] = '3';
  k = sprintf(p + N, "e-%zu", N - 2);
  parse<double>(p, p + N + (size_t)k, -3.0, "an integer and an exponent that cancel out");
  parse<float>(p, p + N + (size_t)k, -3.0f, "an integer and an exponent that cancel out");
  parse<double>(p, p + N, -INFINITY, "an integer beyond the range");
}

#elif MODE == 16
struct Sip {
  uint64_t a, b, c, d;
  static uint64_t rot(uint64_t x, int k) { return x << k | x >> (64 - k); }
  void round() {
    a += b, c += d, b = rot(b, 13) ^ a, d = rot(d, 16) ^ c, a = rot(a, 32);
    c += b, a += d, b = rot(b, 17) ^ c, d = rot(d, 21) ^ a, c = rot(c, 32);
  }
  void word(uint64_t w) { d ^= w, round(), round(), a ^= w; }
};
void work(ck::Rng& r) {
  u8* p = (u8*)area(N + 8);
  std::vector<size_t> at = places(r, N);
  for (size_t i = 0; i < at.size(); i++) p[at[i]] = mark(at[i]);
  u8 k[16], o[8];
  uint64_t k0, k1;
  for (int i = 0; i < 16; i++) k[i] = (u8)r.next();
  memcpy(&k0, k, 8), memcpy(&k1, k + 8, 8);
  Sip s = {k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull};
  for (size_t i = 0; i + 8 <= N; i += 8) {
    uint64_t w;
    memcpy(&w, p + i, 8);
    s.word(w);
  }
  uint64_t w = (uint64_t)N << 56;
  for (size_t i = N / 8 * 8; i < N; i++) w |= (uint64_t)p[i] << (8 * (i % 8));
  s.word(w);
  s.c ^= 0xff;
  for (int i = 0; i < 4; i++) s.round();
  const uint64_t want = s.a ^ s.b ^ s.c ^ s.d;
  nanostl::siphash(p, N, k, o, 8);
  uint64_t got;
  memcpy(&got, o, 8);
  CK(got == want, "siphash of %zu bytes is %016llx, not %016llx", N, (unsigned long long)got, (unsigned long long)want);
  done("hashed", N);
}
#endif
}  // namespace

int main(int argc, char** argv) {
  char name[8];
  sprintf(name, "P%02d", MODE);
  ck::init(argc, argv, name);
  ck::Rng r = ck::rng(99);
  ck::begin_case("lengths beyond 2^32");
  if (sizeof(size_t) < 8 || available() < ((size_t)20 << 30)) {
    ck::count("no memory for lengths beyond 2^32");
    return ck::finish();
  }
  try {
    work(r);
  } catch (const std::bad_alloc&) {
    void* p = malloc((size_t)16 << 30);
    CK(!p, "an operation asked for more memory than 16 GB, or for a nonsensical amount");
    ck::count("no memory for lengths beyond 2^32");
    return ck::finish();
  }
  struct rusage u;
  getrusage(RUSAGE_SELF, &u);
  ck::maximum("GB of memory used", (double)u.ru_maxrss / (1 << 20));
  ck::sample("lengths of 4294967303 bytes and more");
  return ck::finish();
}
