// to_string of float and double: the shortest decimal that reads back, closest to the value.
#include <charconv>
#include "common.h"
#include "hard_numbers.h"
#define NANOSTL_IMPLEMENTATION
#include "nanostring.h"

namespace {
// "1.5e+00" -> "1.5E0"
template <class T>
size_t ref(T v, char* out) {
  if (v != v) return (size_t)sprintf(out, "NaN");
  if (v > std::numeric_limits<T>::max()) return (size_t)sprintf(out, "Infinity");
  if (v < -std::numeric_limits<T>::max()) return (size_t)sprintf(out, "-Infinity");
  char b[64];
  std::to_chars_result r = std::to_chars(b, b + sizeof b, v, std::chars_format::scientific);
  *r.ptr = 0;
  char* e = strchr(b, 'e');
  if (!e) ck::harness_error("to_chars");
  size_t n = (size_t)(e - b);
  memcpy(out, b, n);
  int x = atoi(e + 1);
  return n + (size_t)sprintf(out + n, "E%d", x);
}
float read(const char* s, float) { return strtof(s, 0); }
double read(const char* s, double) { return strtod(s, 0); }

template <class T>
void one(T v, const char* type) {
  char want[64];
  size_t n = ref(v, want);
  nanostl::string s = nanostl::to_string(v);
  if (s.size() != n || memcmp(s.c_str(), want, n + 1) != 0) {
    ck::begin_case("to_string(%s)", type);
    ck::fail("to_string(%s %a) is \"%s\" of size %lu, the shortest representation is \"%s\"", type, (double)v, s.c_str(),
             (unsigned long)s.size(), want);
  }
  if (v == v && v - v == 0) {
    T back = read(s.c_str(), v);
    if (memcmp(&back, &v, sizeof v)) ck::fail("to_string(%s %a) = \"%s\" reads as %a", type, (double)v, s.c_str(), (double)back);
  }
}
float F(uint32_t u) {
  float f;
  memcpy(&f, &u, 4);
  return f;
}
double D(uint64_t u) {
  double f;
  memcpy(&f, &u, 8);
  return f;
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P09");
  ck::State& s = ck::st();
  ck::Rng r = ck::rng();
#ifdef CK_ASAN
  const bool all = false;
#else
  const bool all = s.thorough;
#endif
  if (all) {
    uint64_t n = 0;
    for (uint64_t u = s.shard; u < (1ull << 32); u += s.nshards, n++) one(F((uint32_t)u), "float");
    ck::enumerated(n);
    ck::count("floats (all 2^32 over the shards)", n);
  } else {
    // every exponent and sign with the mantissas at the ends, and random ones
    uint64_t n = 0;
    for (uint32_t e = s.shard; e < 512; e += s.nshards) {
      static const uint32_t M[] = {0, 1, 2, 3, 0x3fffff, 0x400000, 0x400001, 0x7ffffe, 0x7fffff};
      for (int k = 0; k < 9; k++, n++) one(F(e << 23 | M[k]), "float");
      for (int k = 0; k < 23; k++, n++) one(F(e << 23 | (1u << k) | (uint32_t)(r.next() & 0x7fffff)), "float");
    }
    ck::enumerated(n);
    ck::count("floats at the ends of every binade", n);
  }
  {
    uint64_t n = 0;
    for (uint64_t e = s.shard; e < 4096; e += s.nshards) {
      static const uint64_t M[] = {0, 1, 2, 0x7ffffffffffffull, 0x8000000000000ull, 0x8000000000001ull, 0xffffffffffffeull, 0xfffffffffffffull};
      for (int k = 0; k < 8; k++, n++) one(D(e << 52 | M[k]), "double");
    }
    ck::enumerated(n);
    ck::count("doubles at the ends of every binade", n);
    n = 0;
    if (s.shard == 0) {  // powers of ten and their neighbours; small integers; 5 * 10^k; values with few digits
      char b[64];
      for (int e = -345; e <= 309; e++)
        for (int m = 1; m < 100; m++) {
          snprintf(b, sizeof b, "%de%d", m, e);
          double d = strtod(b, 0);
          float f = strtof(b, 0);
          for (int k = -1; k <= 1; k++, n++) {
            one(k < 0 ? nextafter(d, -1e308) : k ? nextafter(d, 1e308) : d, "double");
            if (e > -48 && e < 40) one(k < 0 ? nextafterf(f, -1e38f) : k ? nextafterf(f, 1e38f) : f, "float");
          }
        }
      ck::count("values with two digits and their neighbours", n);
      for (int i = -200000; i <= 200000; i++, n++) one((double)i, "double"), one((float)i, "float");
      ck::count("small integers", 400001);
      for (int i = 0; i < 4096; i++) one(ldexp((double)i, -12), "double"), one(ldexpf((float)i, -12), "float");
    }
    ck::enumerated(n);
  }
  {
    uint64_t n = 0;
    const size_t d = sizeof hard::DOUBLES / sizeof *hard::DOUBLES, f = sizeof hard::FLOATS / sizeof *hard::FLOATS;
    for (size_t i = s.shard; i < d; i += s.nshards)
      for (int k = -1; k <= 1; k++, n++) one(D(hard::DOUBLES[i] + (uint64_t)(int64_t)k), "double");
    for (size_t i = s.shard; i < f; i += s.nshards)
      for (int k = -1; k <= 1; k++, n++) one(F((uint32_t)(hard::FLOATS[i] + (uint32_t)k)), "float");
    ck::enumerated(n);
    ck::count("values whose neighbourhood is closest to a multiple of a power of ten", n);
  }
  {
    // Values, and values whose rounding intervals end at, multiples of powers of 5 and of 2: there the digits that are
    // left out are exactly zeros, or exactly a half.
    uint64_t n = 0;
    for (uint64_t e = s.shard; e < 2047; e += s.nshards) {
      uint64_t p5 = 1;
      for (int q = 0; q < 24; q++, p5 *= 5) {
        const uint64_t m = ((1ull << 54) + (r.next() >> 10)) / p5;
        for (uint64_t c = m * p5; c < (m + 4) * p5; c += p5) {
          const uint64_t t = c % 4 == 2 ? r.chance(1, 2) ? c - 2 : c + 2 : c;
          if (t % 4 == 0 && (t >> 54) == 1) one(D(e << 52 | (t >> 2 & 0xfffffffffffffull)), "double"), n++;
        }
      }
      for (int j = 0; j < 52; j++, n++) one(D(e << 52 | ((r.next() | 1) << j & 0xfffffffffffffull)), "double");
    }
    for (uint32_t e = s.shard; e < 255; e += s.nshards) {
      uint32_t p5 = 1;
      for (int q = 0; q < 11; q++, p5 *= 5) {
        const uint32_t m = ((1u << 25) + (uint32_t)(r.next() >> 39)) / p5;
        for (uint32_t c = m * p5; c < (m + 16) * p5; c += p5) {
          const uint32_t t = c % 4 == 2 ? r.chance(1, 2) ? c - 2 : c + 2 : c;
          if (t % 4 == 0 && (t >> 25) == 1) one(F(e << 23 | (t >> 2 & 0x7fffffu)), "float"), n++;
        }
      }
      for (int j = 0; j < 23; j++, n++) one(F(e << 23 | (uint32_t)((r.next() | 1) << j & 0x7fffffu)), "float");
    }
    // every number of digits, from 10...0 to 9...9
    for (int k = 1 + (int)s.shard; k <= 17; k += (int)s.nshards)
      for (int e = -345; e <= 309; e++) {
        uint64_t p = 1;
        for (int i = 0; i < k; i++) p *= 10;
        const uint64_t V[] = {p - 1, p + 1, p / 10 * 9, p - p / 2 - 1, p / 10 + r.below(p - p / 10), p / 10 + r.below(p - p / 10)};
        for (int i = 0; i < 6; i++, n++) {
          char b[64];
          snprintf(b, sizeof b, "%llue%d", (unsigned long long)V[i], e - k);
          one(strtod(b, 0), "double");
          if (k <= 9 && e > -48 && e < 40) one(strtof(b, 0), "float");
        }
      }
    ck::enumerated(n);
    ck::count("values at multiples of powers of 5 and 2, and of every number of digits", n);
  }
  const uint64_t N = s.thorough ? 60000000 : 60000;
  for (uint64_t i = 0; i < N; i++) {
    uint64_t u = r.next();
    double d;
    switch (r.below(6)) {
      case 0: d = (double)(int64_t)(u >> r.below(64)); break;                              // integers
      case 1: d = (double)(u >> 11) / (double)(1ull << (11 + r.below(53))); break;         // fractions
      case 2: {                                                                            // few digits
        char b[64];
        snprintf(b, sizeof b, "%llue%d", (unsigned long long)(u % (r.chance(1, 2) ? 1000000 : 10000000000000000ull)), (int)r.range(-340, 300));
        d = strtod(b, 0);
        break;
      }
      case 3: d = D(u & 0x800fffffffffffffull); break;                                     // subnormals
      default: d = D(u); break;
    }
    one(d, "double");
    float f = r.chance(1, 2) ? F((uint32_t)(u >> 32)) : (float)(d < 3e38 && d > -3e38 ? d : 0);
    one(f, "float");
    if (i < 3) {
      char b[80];
      snprintf(b, sizeof b, "to_string(%a), to_string(%af)", d, f);
      ck::sample(b);
    }
    ck::eval(ck::mix(u, 3), true);
  }
  return ck::finish();
}
