// Classification and the exact operations of nanomath.h, against <cmath>, over every float.
#include "common.h"
#include "nanomath.h"

namespace {
float F(uint32_t u) {
  float f;
  memcpy(&f, &u, 4);
  return f;
}
double D(uint64_t u) {
  double f;
  memcpy(&f, &u, 8);
  return f;
}
uint32_t B(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return u;
}
template <class T>
bool same(T a, T b) {  // equal, or both NaN
  return a == b || (a != a && b != b);
}
template <class T, class U>
void classify(T v, U bits, U expmask, U manmask) {
  const bool e0 = (bits & expmask) == 0, e1 = (bits & expmask) == expmask, m0 = (bits & manmask) == 0;
  CK(nanostl::isnan(v) == (e1 && !m0), "isnan(%a)", (double)v);
  CK(nanostl::isinf(v) == (e1 && m0), "isinf(%a)", (double)v);
  CK(nanostl::isfinite(v) == !e1, "isfinite(%a)", (double)v);
  CK(nanostl::isnormal(v) == (!e0 && !e1), "isnormal(%a)", (double)v);
  CK(same(nanostl::fabs(v), (T)std::fabs(v)), "fabs(%a) is %a", (double)v, (double)nanostl::fabs(v));
  CK(same(nanostl::ceil(v), (T)std::ceil(v)), "ceil(%a) is %a", (double)v, (double)nanostl::ceil(v));
  CK(same(nanostl::floor(v), (T)std::floor(v)), "floor(%a) is %a", (double)v, (double)nanostl::floor(v));
}
template <class T>
void pair(T a, T b) {
  T lo = nanostl::fmin(a, b), hi = nanostl::fmax(a, b);
  // by hand: the fmin of glibc is NaN for a signaling NaN
  const T wlo = a != a ? b : b != b ? a : b < a ? b : a, whi = a != a ? b : b != b ? a : b > a ? b : a;
  CK(same(lo, wlo), "fmin(%a, %a) is %a", (double)a, (double)b, (double)lo);
  CK(same(hi, whi), "fmax(%a, %a) is %a", (double)a, (double)b, (double)hi);
}
void clamped(float x, float lo, float hi) {
  if (!(lo <= hi) || x != x) return;
  float w = x < lo ? lo : x > hi ? hi : x;
  float c = nanostl::clamp(x, lo, hi);
  CK(c == w, "clamp(%a, %a, %a) is %a", (double)x, (double)lo, (double)hi, (double)c);
  ck::count("clamp");
}
void sign(float a, float b) {
  float c = nanostl::copysign(a, b);
  CK(B(c) == ((B(a) & 0x7fffffffu) | (B(b) & 0x80000000u)), "copysign(%a, %a) is %a", (double)a, (double)b, (double)c);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P13");
  ck::State& s = ck::st();
  ck::Rng r = ck::rng();
#ifdef NDEBUG
  const uint64_t stride = 1;  // the optimised build: every float
#else
  const uint64_t stride = s.thorough ? 17 : 509;
#endif
  uint64_t n = 0;
  uint32_t prev = 0;
  for (uint64_t u = s.shard * stride + (stride > 1 ? s.seed % stride : 0); u < (1ull << 32); u += s.nshards * stride, n++) {
    float v = F((uint32_t)u);
    ck::st().nlog = 0;
    classify<float, uint32_t>(v, (uint32_t)u, 0x7f800000u, 0x007fffffu);
    uint32_t other = (uint32_t)(u * 2654435761u) ^ prev;
    pair(v, F(other));
    sign(v, F(other));
    prev = other >> 3;
  }
  ck::enumerated(n);
  ck::count(stride == 1 ? "floats (all 2^32 over the shards)" : "floats (strided)", n);
  // the ends of every binade, halfway values and integers: all pairs of the special ones
  std::vector<float> sp;
  if (s.shard == 0) {
    static const uint32_t M[] = {0, 1, 2, 0x3fffff, 0x400000, 0x400001, 0x7ffffe, 0x7fffff};
    for (uint32_t e = 0; e < 512; e++)
      for (int k = 0; k < 8; k++) {
        uint32_t u = e << 23 | M[k];
        classify<float, uint32_t>(F(u), u, 0x7f800000u, 0x007fffffu);
        if (e % 16 == 0 || (e & 255) > 253 || (e & 255) < 2 || ((e & 255) > 124 && (e & 255) < 130)) sp.push_back(F(u));
      }
    for (int i = -1000; i <= 1000; i++)
      for (int d = -2; d <= 2; d++) {
        float f = (float)i * 0.5f;
        uint32_t u = B(f) + (uint32_t)d;
        classify<float, uint32_t>(F(u), u, 0x7f800000u, 0x007fffffu);
      }
    for (size_t i = 0; i < sp.size(); i++)
      for (size_t j = 0; j < sp.size(); j++) {
        pair(sp[i], sp[j]);
        pair((double)sp[i], (double)sp[j]);
        sign(sp[i], sp[j]);
        clamped(sp[i], sp[j], sp[(i * 7 + j) % sp.size()]);
        clamped(sp[i], sp[j], sp[j]);
      }
    ck::enumerated(sp.size() * sp.size());
    ck::count("pairs of special floats", sp.size() * sp.size());
  }
  uint64_t m = 0;
  for (uint64_t e = s.shard; e < 4096; e += s.nshards) {
    static const uint64_t M[] = {0, 1, 2, 0x7ffffffffffffull, 0x8000000000000ull, 0x8000000000001ull, 0xffffffffffffeull, 0xfffffffffffffull};
    for (int k = 0; k < 8; k++) classify<double, uint64_t>(D(e << 52 | M[k]), e << 52 | M[k], 0x7ffull << 52, 0xfffffffffffffull);
    // one bit set or cleared, so that each mantissa bit decides alone; integers and halves of that binade
    for (int k = 0; k < 52; k++) {
      classify<double, uint64_t>(D(e << 52 | 1ull << k), e << 52 | 1ull << k, 0x7ffull << 52, 0xfffffffffffffull);
      uint64_t w = e << 52 | (0xfffffffffffffull >> k << k);
      classify<double, uint64_t>(D(w), w, 0x7ffull << 52, 0xfffffffffffffull);
    }
    m += 112;
  }
  ck::enumerated(m);
  ck::count("doubles at the ends of every binade", m);
  const uint64_t N = s.thorough ? 40000000 : 500000;
  for (uint64_t i = 0; i < N; i++) {
    uint64_t u = r.next(), w = r.next();
    if (r.chance(1, 3)) {  // near an integer
      double d = (double)(int64_t)(u >> r.below(64)) * (r.chance(1, 2) ? 1 : 0.5);
      memcpy(&u, &d, 8);
      u += (uint64_t)r.range(-2, 2);
    }
    if (r.chance(1, 8)) w = u ^ (1ull << r.below(64));
    classify<double, uint64_t>(D(u), u, 0x7ffull << 52, 0xfffffffffffffull);
    pair(D(u), D(w));
    pair(D(w), D(u));
    float a = F((uint32_t)u), b = F((uint32_t)w), c = F((uint32_t)(w >> 32));
    if (b > c) std::swap(b, c);
    clamped(a, b, c);
    if (i < 3) {
      char t[120];
      snprintf(t, sizeof t, "classify, ceil and floor of %a; fmin and fmax with %a", D(u), D(w));
      ck::sample(t);
    }
    ck::eval(u, true);
  }
  return ck::finish();
}
