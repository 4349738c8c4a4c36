// to_string of integers: the exact decimal representation, against an independent rendering.
#include "common.h"
#define NANOSTL_IMPLEMENTATION
#include "nanostring.h"

namespace {
// Decimal digits by repeated subtraction of powers of ten: shares nothing with the division loops under test.
struct Ref {
  char b[24];
  unsigned n;
  void digits(uint64_t v) {
    static const uint64_t P[20] = {10000000000000000000ull, 1000000000000000000ull, 100000000000000000ull,
                                   10000000000000000ull, 1000000000000000ull, 100000000000000ull, 10000000000000ull,
                                   1000000000000ull, 100000000000ull, 10000000000ull, 1000000000ull, 100000000ull,
                                   10000000ull, 1000000ull, 100000ull, 10000ull, 1000ull, 100ull, 10ull, 1ull};
    bool started = false;
    for (int i = 0; i < 20; i++) {
      char c = '0';
      while (v >= P[i]) {
        v -= P[i];
        c++;
      }
      if (c != '0' || started || i == 19) {
        started = true;
        b[n++] = c;
      }
    }
  }
  explicit Ref(uint64_t v) : n(0) { digits(v); }
  explicit Ref(int64_t v) : n(0) {
    uint64_t u = (uint64_t)v;
    if (v < 0) {
      b[n++] = '-';
      u = ~u + 1;
    }
    digits(u);
  }
};

template <class T, class W>
void one(T v, const char* type) {
  Ref r((W)v);
  nanostl::string s = nanostl::to_string(v);
  if (s.size() != r.n || memcmp(s.c_str(), r.b, r.n) != 0 || s.c_str()[r.n] != 0) {
    ck::begin_case("to_string(%s)", type);
    r.b[r.n] = 0;
    ck::fail("to_string(%s %s) is \"%s\" of size %lu", type, r.b, s.c_str(), (unsigned long)s.size());
  }
}
template <class U, class T, class W>
void both(U u, const char* a, const char*) {
  one<T, W>((T)u, a);
}
void all_types(uint64_t v) {
  one<int, int64_t>((int)(uint32_t)v, "int");
  one<unsigned, uint64_t>((unsigned)v, "unsigned");
  one<nanostl::int64_t, int64_t>((nanostl::int64_t)v, "int64_t");
  one<nanostl::uint64_t, uint64_t>((nanostl::uint64_t)v, "uint64_t");
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P08");
  ck::State& s = ck::st();
  // around every power of two and ten, small values, and every value with one repeated digit or a lone digit
  if (s.shard == 0) {
    std::unordered_set<uint64_t> seen;
    for (int neg = 0; neg < 2; neg++) {
      std::vector<uint64_t> mid;
      for (int i = 0; i < 64; i++) mid.push_back(1ull << i);
      uint64_t p = 1;
      for (int i = 0; i < 20; i++, p *= 10) {
        for (int d = 1; d < 10; d++) mid.push_back(p * d);
        uint64_t r = 0;
        for (int k = 0; k <= i; k++) r = r * 10 + 7;
        mid.push_back(r);
      }
      mid.push_back(0);
      for (size_t i = 0; i < mid.size(); i++)
        for (int d = -300; d <= 300; d++) {
          uint64_t v = mid[i] + (uint64_t)(int64_t)d;
          if (neg) v = ~v + 1;
          if (seen.insert(v).second) all_types(v);
        }
    }
    ck::enumerated(seen.size());
    ck::count("boundary values", seen.size());
    ck::sample("to_string(-9223372036854775808), to_string(0), to_string(4294967295) and neighbours");
  }
#ifndef CK_ASAN
  if (s.thorough) {
    // every int and every unsigned int
    uint64_t n = 0;
    for (uint64_t u = s.shard; u < (1ull << 32); u += s.nshards, n++) {
      one<int, int64_t>((int)(uint32_t)u, "int");
      if ((u >> 8) % 16 == s.seed % 16) one<unsigned, uint64_t>((unsigned)u, "unsigned");
    }
    ck::enumerated(n);
    ck::count("ints (all 2^32 over the shards)", n);
  }
#endif
  ck::Rng r = ck::rng();
  const uint64_t N = s.thorough ? 30000000 : 250000;
  for (uint64_t i = 0; i < N; i++) {
    uint64_t v = r.next() >> r.below(64);
    if (r.chance(1, 3)) v = ~v;
    if (r.chance(1, 8)) {  // digits 0 and 9 only: carries and inner zeros
      v = 0;
      for (unsigned k = 0, n = 1 + r.below(19); k < n; k++) v = v * 10 + (r.chance(1, 2) ? 9 : 0);
    }
    all_types(v);
    if (i < 3) ck::sample("random value " + std::to_string(v) + " as int, unsigned, int64_t and uint64_t");
    ck::eval(v, v > 9);
  }
  return ck::finish();
}
