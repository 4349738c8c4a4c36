// The approximations of nanomath.h stay within their documented accuracy; exact special values; symmetries.
#include "common.h"
#include "nanomath.h"

namespace {
float F(uint32_t u) {
  float f;
  memcpy(&f, &u, 4);
  return f;
}
uint32_t B(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return u;
}
long ulps(float a, float b) {
  int32_t x, y;
  memcpy(&x, &a, 4);
  memcpy(&y, &b, 4);
  int64_t p = x < 0 ? -(int64_t)(x & 0x7fffffff) : x, q = y < 0 ? -(int64_t)(y & 0x7fffffff) : y;
  return (long)(p > q ? p - q : q - p);
}
struct Max {
  const char* name;
  double v;
};
enum { EXP, LOG, LOG10, SIN, COS, SIN8, COS8, TAN, TAN8, SINH1, SINHU, COSH, TANH, ERF, ERFC, CBRT, CBRTD, SQRT, IERF, NM };
Max mx[NM] = {{"exp ulp", 0}, {"log abs", 0}, {"log10 abs", 0}, {"sin abs on 2pi", 0}, {"cos abs on 2pi", 0}, {"sin abs on 8192", 0}, {"cos abs on 8192", 0},
              {"tan abs on 1.5", 0}, {"tan angle on 8192", 0}, {"sinh abs", 0}, {"sinh ulp", 0}, {"cosh ulp", 0}, {"tanh abs", 0}, {"erf abs", 0}, {"erfc abs", 0},
              {"cbrt ulp", 0}, {"cbrt abs below 1e-38", 0}, {"sqrt rel", 0}, {"erf(ierf) abs", 0}};
const double LIM[NM] = {300, 1.5e-5, 1e-5, 5e-7, 1e-6, 5e-7, 1e-6, 3e-6, 0, 2.5e-7, 300, 300, 5e-6, 5e-6, 5e-6, 16, 1.2e-13, 0.0020, 3e-5};
inline void in(int which, double err, float x, float got, double want) {
  if (err <= LIM[which]) {
    if (err > mx[which].v) mx[which].v = err;
    return;
  }
  ck::fail("%s: the error is %g at x = %a (%.9g): got %.9g instead of %.9g", mx[which].name, err, (double)x, (double)x, (double)got, want);
}
inline void eq(const char* what, float x, float a, float b) {
  CK(a == b || (a != a && b != b), "%s at x = %a (%.9g): %.9g and %.9g", what, (double)x, (double)x, (double)a, (double)b);
}

void one(float x) {
  const double d = x;
  const float a = x < 0 ? -x : x;
  float g;
  double w;
  if (a <= 87.33f) {
    g = nanostl::exp(x);
    w = std::exp(d);
    in(EXP, (double)ulps(g, (float)w), x, g, w);
    g = nanostl::sinh(x);
    w = std::sinh(d);
    if (a > 1) in(SINHU, (double)ulps(g, (float)w), x, g, w);
    else in(SINH1, std::fabs(g - w), x, g, w);
    eq("sinh(-x) and -sinh(x)", x, nanostl::sinh(-x), -g);
    g = nanostl::cosh(x);
    w = std::cosh(d);
    in(COSH, (double)ulps(g, (float)w), x, g, w);
    eq("cosh(-x) and cosh(x)", x, nanostl::cosh(-x), g);
  }
  if (a > 88.8f) {  // what overflows or vanishes saturates, to whatever is at the end of the range
    const float e = nanostl::exp(x), h = nanostl::sinh(x), c = nanostl::cosh(x);
    CK(x > 0 ? e >= 8e37f : e >= 0 && e <= 1.2e-38f, "exp(%a) is %a", d, (double)e);
    CK(x > 0 ? h >= 4e37f : h <= -4e37f, "sinh(%a) is %a", d, (double)h);
    CK(c >= 4e37f, "cosh(%a) is %a", d, (double)c);
  }
  if (x >= FLT_MIN) {
    if (x <= FLT_MAX) {
      g = nanostl::log(x);
      w = std::log(d);
      in(LOG, std::fabs(g - w), x, g, w);
      g = nanostl::log10(x);
      w = std::log10(d);
      in(LOG10, std::fabs(g - w), x, g, w);
      g = nanostl::sqrt(x);
      w = std::sqrt(d);
      in(SQRT, std::fabs(g - w) / w, x, g, w);
    }
  } else if (x < 0) {
    CK(nanostl::log(x) != nanostl::log(x), "log(%a) is %a instead of NaN", d, (double)nanostl::log(x));
    CK(nanostl::log10(x) != nanostl::log10(x), "log10(%a) is %a instead of NaN", d, (double)nanostl::log10(x));
    CK(nanostl::sqrt(x) != nanostl::sqrt(x), "sqrt(%a) is %a instead of NaN", d, (double)nanostl::sqrt(x));
  }
  if (a <= 8192) {
    const bool in2pi = a <= 6.2831853f;
    g = nanostl::sin(x);
    w = std::sin(d);
    in(in2pi ? SIN : SIN8, std::fabs(g - w), x, g, w);
    CK(g >= -1 && g <= 1, "|sin(%a)| is more than 1", d);
    g = nanostl::cos(x);
    w = std::cos(d);
    in(in2pi ? COS : COS8, std::fabs(g - w), x, g, w);
    CK(g >= -1 && g <= 1, "|cos(%a)| is more than 1", d);
    g = nanostl::tan(x);
    w = std::tan(d);
    if (a <= 1.5f) in(TAN, std::fabs(g - w), x, g, w);
    // near a pole the angle that has this tangent is what can be compared
    double err = std::fabs(g - w) / (1 + w * w);
    if (err > 4e-7) ck::fail("tan(%a) is %.9g instead of %.9g: %g in the angle", d, (double)g, w, err);
    if (err > mx[TAN8].v) mx[TAN8].v = err;
  }
  if (a <= FLT_MAX) {
    g = nanostl::tanh(x);
    w = std::tanh(d);
    in(TANH, std::fabs(g - w), x, g, w);
    CK(g >= -1 && g <= 1, "|tanh(%a)| is more than 1", d);
    eq("tanh(-x) and -tanh(x)", x, nanostl::tanh(-x), -g);
    g = nanostl::erf(x);
    w = std::erf(d);
    in(ERF, std::fabs(g - w), x, g, w);
    CK(g >= -1 && g <= 1, "|erf(%a)| is more than 1", d);
    eq("erf(-x) and -erf(x)", x, nanostl::erf(-x), -g);
    g = nanostl::cbrt(x);
    w = std::cbrt(d);
    if (a >= 1e-38f) in(CBRT, (double)ulps(g, (float)w), x, g, w);
    else in(CBRTD, std::fabs(g - w), x, g, w);
    eq("cbrt(-x) and -cbrt(x)", x, nanostl::cbrt(-x), -g);
    g = nanostl::erfc(x);
    w = std::erfc(d);
    in(ERFC, std::fabs(g - w), x, g, w);
  }
  if (a <= 1) {
    g = nanostl::ierf(x);
    CK(g - g == 0, "ierf(%a) is not finite", d);
    w = std::erf((double)g);
    in(IERF, std::fabs(w - d), x, g, w);
    eq("ierf(-x) and -ierf(x)", x, nanostl::ierf(-x), -g);
  }
  if (x != x) {
    eq("sqrt(NaN)", x, nanostl::sqrt(x), x);
  }
}

void power(float x, float y) {
  const float g = nanostl::pow(x, y);
  ck::count("pow");
  if (y == 0) {
    CK(g == 1, "pow(%a, %a) is %.9g instead of 1", (double)x, (double)y, (double)g);
    return;
  }
  if (x == 0) {
    CK(g == 0, "pow(%a, %a) is %.9g instead of 0", (double)x, (double)y, (double)g);
    return;
  }
  if (y == 1) {
    CK(g == x, "pow(%a, 1) is %.9g", (double)x, (double)g);
    return;
  }
  if (y == 2) {
    float w = x * x;
    if (w > FLT_MAX) w = FLT_MAX;
    CK(g == w, "pow(%a, 2) is %.9g instead of %.9g", (double)x, (double)g, (double)w);
    return;
  }
  if (!(std::fabs(x) <= FLT_MAX && std::fabs(x) >= FLT_MIN && std::fabs(y) <= FLT_MAX)) return;
  const bool integer = std::floor(y) == y;
  if (x < 0 && !integer) {
    CK(g == 0, "pow(%a, %a) of a negative number to a fraction is %.9g instead of 0", (double)x, (double)y, (double)g);
    ck::count("pow of a negative number to a fraction");
    return;
  }
  const double l = (double)y * std::log2(std::fabs((double)x));
  const bool neg = x < 0 && std::fmod((double)y, 2) != 0;
  CK(neg ? g < 0 : g > 0, "pow(%a, %a) is %.9g: the sign is wrong", (double)x, (double)y, (double)g);
  CK(g - g == 0, "pow(%a, %a) is not finite", (double)x, (double)y);
  const double slack = 1.3e-5 * std::fabs((double)y) + 1e-4;  // of the exponent
  if (std::fabs(l) + slack < 125.9) {
    const double w = (neg ? -1 : 1) * std::exp2(l);
    const double err = std::fabs(g - w) / std::fabs(w);
    const double lim = std::fabs((double)y) * 1.5e-5 + std::fabs(l) * 1.5e-7 + 4e-5;
    CK(err <= lim || lim > 0.5, "pow(%a, %a) is %.9g instead of %.9g (relative error %g, allowed %g)", (double)x, (double)y, (double)g, w, err, lim);
    ck::maximum("pow error / allowed", lim > 0.5 ? 0 : err / lim);
    if (lim <= 0.5) ck::count("pow within the accurate range");
  } else if (l - slack > 126) {
    CK(std::fabs(g) >= std::ldexp(1.0f, 125), "pow(%a, %a) is %.9g but should be huge", (double)x, (double)y, (double)g);
    ck::count("pow saturated high");
  } else if (l + slack < -126) {
    CK(std::fabs(g) <= std::ldexp(1.0f, -125), "pow(%a, %a) is %.9g but should be tiny", (double)x, (double)y, (double)g);
    ck::count("pow saturated low");
  }
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P14");
#if defined(__FMA__)
  __builtin_cpu_init();
  if (!__builtin_cpu_supports("fma")) {
    ck::count("shards left out: no fused operations on this processor");
    return ck::finish();
  }
#endif
  ck::State& s = ck::st();
  ck::Rng r = ck::rng();
#ifdef NDEBUG
  const uint64_t stride = s.thorough ? 1 : 7;
#else
  const uint64_t stride = s.thorough ? 199 : 601;
#endif
  uint64_t n = 0;
  for (uint64_t u = s.shard * stride + (stride > 1 ? s.seed * 5 % stride : 0); u < (1ull << 32); u += s.nshards * stride, n++) one(F((uint32_t)u));
  ck::enumerated(n);
  ck::count(stride == 1 ? "floats (all 2^32 over the shards)" : "floats (strided)", n);
  // dense around what is special: 0, the ends of binades, integers, multiples of pi/4, the ends of the documented ranges
  {
    std::vector<float> c;
    for (uint32_t e = 0; e < 512; e++) c.push_back(F(e << 23)), c.push_back(F(e << 23 | 0x400000));
    for (int i = -400; i <= 400; i++) c.push_back((float)i), c.push_back((float)i + 0.5f), c.push_back((float)(i * 0.78539816339744830962));
    for (int i = 400; i < 10430; i += 13) c.push_back((float)(i * 0.78539816339744830962)), c.push_back((float)(-i * 0.78539816339744830962));
    static const float X[] = {87.33f, -87.33f, 6.2831853f, -6.2831853f, 8192, -8192, 4, -4, 1.5f, -1.5f, 1, -1, 0.99999994f, 1e-38f, -1e-38f, FLT_MIN, FLT_MAX, -FLT_MAX, 0.69314718f, 2.5f, 1e-6f, 3.9e-3f};
    c.insert(c.end(), X, X + sizeof X / sizeof *X);
    uint64_t m = 0;
    for (size_t i = s.shard; i < c.size(); i += s.nshards)
      for (int k = -60; k <= 60; k++, m++) one(F(B(c[i]) + (uint32_t)k));
    ck::enumerated(m);
    ck::count("floats next to special ones", m);
  }
  const float inf = INFINITY;
  eq("log(0)", 0, nanostl::log(0.0f), -inf);
  eq("log(-0)", 0, nanostl::log(-0.0f), -inf);
  eq("log(1)", 1, nanostl::log(1.0f), 0);
  eq("log10(0)", 0, nanostl::log10(0.0f), -inf);
  eq("log10(-0)", 0, nanostl::log10(-0.0f), -inf);
  eq("log10(1)", 1, nanostl::log10(1.0f), 0);
  eq("exp(0)", 0, nanostl::exp(0.0f), 1);
  eq("sqrt(0)", 0, nanostl::sqrt(0.0f), 0);
  CK(B(nanostl::sqrt(-0.0f)) == 0x80000000u, "sqrt(-0) is not -0");
  eq("sqrt(1)", 1, nanostl::sqrt(1.0f), 1);
  eq("sqrt(inf)", inf, nanostl::sqrt(inf), inf);
  eq("sqrt(-inf)", -inf, nanostl::sqrt(-inf), inf - inf);
  eq("sin(0)", 0, nanostl::sin(0.0f), 0);
  eq("cos(0)", 0, nanostl::cos(0.0f), 1);
  eq("tan(0)", 0, nanostl::tan(0.0f), 0);
  eq("tanh(0)", 0, nanostl::tanh(0.0f), 0);
  eq("cbrt(0)", 0, nanostl::cbrt(0.0f), 0);
  eq("erf(0)", 0, nanostl::erf(0.0f), 0);
  eq("erfc(0)", 0, nanostl::erfc(0.0f), 1);
  eq("ierf(0)", 0, nanostl::ierf(0.0f), 0);
  const uint64_t N = s.thorough ? 60000000 : 300000;
  for (uint64_t i = 0; i < N; i++) {
    float x = F((uint32_t)r.next()), y;
    if (r.chance(1, 2)) x = (float)r.range(-1000, 1000) / (float)(1 << r.below(12));
    switch (r.below(5)) {
      case 0: y = (float)r.range(-40, 40); break;
      case 1: y = (float)r.range(-4000, 4000) / 1024; break;
      case 2: y = F((uint32_t)r.next()); break;
      case 3: y = (float)r.range(-70000000, 70000000) / (float)(1 << r.below(5)); break;
      default: y = (float)r.range(-2000, 2000) / 16; break;
    }
    if (x != x || y != y) continue;
    power(x, y);
    if (i < 4) {
      char t[120];
      snprintf(t, sizeof t, "pow(%a, %a) = %a", (double)x, (double)y, (double)nanostl::pow(x, y));
      ck::sample(t);
    }
    ck::eval(ck::mix(B(x), B(y)), x != 0 && y != 0);
  }
  if (s.shard == 0) {
    static const float X[] = {0, -0.0f, 1, -1, 2, -2, 0.5f, -0.5f, 10, -10, FLT_MIN, -FLT_MIN, FLT_MAX, -FLT_MAX, 1e-30f, 3, -3, 1e-10f};
    static const float Y[] = {0, -0.0f, 1, -1, 2, -2, 0.5f, -0.5f, 3, -3, 4, 5, 16777215, 16777216, 16777218, -16777215, 8388607.5f, 8388608, 1.5f, -1.5f, 1073741824.0f, 1e30f, -1e30f, 0.25f, 127, 126, -126};
    for (size_t i = 0; i < sizeof X / 4; i++)
      for (size_t j = 0; j < sizeof Y / 4; j++) power(X[i], Y[j]);
    ck::enumerated(sizeof X / 4 * (sizeof Y / 4));
  }
  for (int i = 0; i < NM; i++) ck::maximum(mx[i].name, mx[i].v);
  return ck::finish();
}
