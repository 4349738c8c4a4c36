// fast_float::from_chars: the nearest float/double of the longest prefix that is a number, for any byte range.
#include "common.h"
#include "hard_numbers.h"
#include "near_powers.h"
#include <system_error>
#ifdef AS_ON_32_BIT
// the code for targets of 32 bits: multiplications by hand and limbs of 32 bits
#include <algorithm>
#include <cassert>
#include <cctype>
#include <cfenv>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#undef __x86_64
#undef __x86_64__
#undef __amd64
#undef __amd64__
#define __i386__ 1
#endif
#ifdef NO_INT128
#undef __SIZEOF_INT128__
#endif
#include "fast_float/fast_float.h"
#ifdef AS_ON_32_BIT
#undef __i386__
#define __x86_64 1
#define __x86_64__ 1
#define __amd64 1
#define __amd64__ 1
#if !defined(FASTFLOAT_32BIT) || !defined(FASTFLOAT_32BIT_LIMB)
#error
#endif
#endif

namespace {
enum { INVALID = 0, NUMBER = 1, INF = 2, NANV = 3 };
struct Token {
  int kind;
  bool neg;
  size_t len;
};
bool digit(char c) { return c >= '0' && c <= '9'; }
bool word(const std::string& t, size_t at, const char* w) {
  for (size_t i = 0; w[i]; i++)
    if (at + i >= t.size() || (t[at + i] | 0x20) != w[i] || t[at + i] < 'A') return false;
  return true;
}
// The grammar of C++17 from_chars.
Token token(const std::string& t, bool sci, bool fix, char point) {
  Token k = {INVALID, false, 0};
  size_t i = 0, n = t.size();
  if (!n) return k;
  if (t[0] == '-') {
    k.neg = true;
    i = 1;
  }
  size_t body = i;
  unsigned d = 0;
  while (i < n && digit(t[i])) i++, d++;
  if (i < n && t[i] == point) {
    i++;
    while (i < n && digit(t[i])) i++, d++;
  }
  if (d) {
    bool exp = false;
    if (sci && i < n && (t[i] == 'e' || t[i] == 'E')) {
      size_t j = i + 1;
      if (j < n && (t[j] == '-' || t[j] == '+')) j++;
      if (j < n && digit(t[j])) {
        while (j < n && digit(t[j])) j++;
        i = j;
        exp = true;
      }
    }
    if (sci && !fix && !exp) return k;
    k.kind = NUMBER;
    k.len = i;
    return k;
  }
  if (word(t, body, "nan")) {
    k.kind = NANV;
    k.len = body + 3;
    if (k.len < n && t[k.len] == '(')
      for (size_t j = k.len + 1; j < n; j++) {
        if (t[j] == ')') {
          k.len = j + 1;
          break;
        }
        if (!isalnum((unsigned char)t[j]) && t[j] != '_') break;
      }
  } else if (word(t, body, "inf")) {
    k.kind = INF;
    k.len = body + (word(t, body, "infinity") ? 8 : 3);
  }
  return k;
}
std::string show(const std::string& t) {
  std::string r;
  for (size_t i = 0; i < t.size(); i++) {
    char b[8];
    if ((unsigned char)t[i] >= 0x20 && (unsigned char)t[i] < 0x7f) r += t[i];
    else snprintf(b, sizeof b, "\\x%02x", (unsigned char)t[i]), r += b;
  }
  return r;
}
float conv(const char* s, float) { return strtof(s, 0); }
double conv(const char* s, double) { return strtod(s, 0); }

template <class T>
void one(const std::string& t, bool sci, bool fix, char point, const char* type) {
  Token k = token(t, sci, fix, point);
  char* buf = (char*)malloc(t.size() ? t.size() : 1);  // exactly as long as the range: reading past it is caught
  if (!buf) ck::harness_error("malloc");
  memcpy(buf, t.data(), t.size());
  T sentinel = (T)12345.678f, v = sentinel;
  fast_float::from_chars_result r;
  fast_float::chars_format f = (fast_float::chars_format)((sci ? fast_float::scientific : 0) | (fix ? fast_float::fixed : 0));
  ck::begin_case("%s \"%s\" sci=%d fix=%d", type, show(t).substr(0, 180).c_str(), sci, fix);
  if (point != '.') r = fast_float::from_chars_advanced(buf, buf + t.size(), v, fast_float::parse_options(f, point));
  else if (sci && fix) r = fast_float::from_chars(buf, buf + t.size(), v);
  else r = fast_float::from_chars(buf, buf + t.size(), v, f);
  const size_t used = (size_t)(r.ptr - buf);
  const bool ok = r.ec == nanostl::errc();
  CK(ok == (k.kind != INVALID), "from_chars<%s>(\"%s\"): ec says %s", type, show(t).c_str(), ok ? "ok" : "invalid");
  if (!ok) {
    CK(r.ec == nanostl::errc::invalid_argument, "from_chars<%s>(\"%s\"): ec is %d", type, show(t).c_str(), (int)r.ec);
    CK(used == 0, "from_chars<%s>(\"%s\") fails with ptr at %zu", type, show(t).c_str(), used);
    CK(memcmp(&v, &sentinel, sizeof v) == 0, "from_chars<%s>(\"%s\") fails and changes the value", type, show(t).c_str());
    ck::count("invalid");
  } else {
    CK(used == k.len, "from_chars<%s>(\"%s\"): ptr is at %zu instead of %zu", type, show(t).c_str(), used, k.len);
    if (k.kind == NANV) {
      CK(v != v, "from_chars<%s>(\"%s\") is %a", type, show(t).c_str(), (double)v);
      ck::count("nan");
    } else if (k.kind == INF) {
      T w = k.neg ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity();
      CK(v == w, "from_chars<%s>(\"%s\") is %a", type, show(t).c_str(), (double)v);
      ck::count("inf");
    } else {
      std::string c = t.substr(0, k.len);
      size_t p = c.find(point);
      if (p != std::string::npos) c[p] = '.';
      T w = conv(c.c_str(), v);
      CK(memcmp(&w, &v, sizeof v) == 0, "from_chars<%s>(\"%s\") is %a, the nearest is %a", type, show(t).c_str(), (double)v, (double)w);
      ck::count("numbers");
      if (v == 0) ck::count("numbers that round to zero");
      if (v - v != 0) ck::count("numbers that round to infinity");
    }
  }
  free(buf);
}
void any(const std::string& t, ck::Rng& r) {
  unsigned m = (unsigned)r.below(8);
  bool sci = m != 1, fix = m != 2;
  one<double>(t, sci, fix, '.', "double");
  one<float>(t, sci, fix, '.', "float");
  if (m == 3) {
    std::string u = t;
    size_t p = u.find('.');
    if (p != std::string::npos) u[p] = ',';
    one<double>(u, true, true, ',', "double");
    one<float>(u, true, true, ',', "float");
  }
}
std::string exponent(ck::Rng& r, int lim) {
  char b[16];
  int e = (int)r.range(-lim, lim);
  snprintf(b, sizeof b, "%c%s%d", r.chance(1, 2) ? 'e' : 'E', e >= 0 && r.chance(1, 3) ? "+" : "", e);
  return b;
}
std::string number(ck::Rng& r) {
  std::string t;
  unsigned nd = 1 + (unsigned)r.below(r.chance(1, 2) ? 9 : r.chance(1, 6) ? 900 : 25);
  if (r.chance(1, 3)) t += '-';
  if (r.chance(1, 6)) t += std::string(r.below(r.chance(1, 4) ? 500 : 25), '0');
  unsigned dot = (unsigned)r.below(nd + 1);
  bool use = r.chance(1, 2);
  unsigned style = (unsigned)r.below(4);
  for (unsigned k = 0; k < nd; k++) {
    if (use && k == dot) t += '.';
    t += style == 0 ? (r.chance(1, 2) ? '0' : '9') : (char)('0' + (r.chance(1, 4) ? 0 : r.below(10)));
  }
  if (use && dot == nd) t += '.';
  if (r.chance(2, 3)) t += exponent(r, r.chance(1, 2) ? 40 : r.chance(1, 2) ? 350 : r.chance(1, 2) ? 1300 : 2000000000);
  return t;
}
// The exact decimal expansion of a value halfway between two neighbours, as it is or moved by a tiny amount.
std::string halfway(ck::Rng& r) {
  static char b[1400];
  long double h;
  if (r.chance(1, 2)) {
    uint32_t u = (uint32_t)r.next() & 0x7fffffff;
    if (r.chance(1, 4)) u &= 0x007fffff;
    if (r.chance(1, 8)) u |= 0x007fffff;  // rounding up carries into the exponent
    float f;
    memcpy(&f, &u, 4);
    if (!(f < FLT_MAX)) f = FLT_MAX;
    h = ((long double)f + (f < FLT_MAX ? (long double)nextafterf(f, FLT_MAX) : ldexpl(1, 128))) / 2;
  } else {
    uint64_t u = r.next() & 0x7fffffffffffffffull;
    if (r.chance(1, 4)) u &= 0x000fffffffffffffull;
    if (r.chance(1, 8)) u |= 0x000fffffffffffffull;
    double f;
    memcpy(&f, &u, 8);
    if (!(f < DBL_MAX)) f = DBL_MAX;
    h = ((long double)f + (f < DBL_MAX ? (long double)nextafter(f, DBL_MAX) : ldexpl(1, 1024))) / 2;
  }
  snprintf(b, sizeof b, "%.1200Le", h);
  std::string t = b;
  size_t e = t.find('e');
  std::string m = t.substr(0, e), x = t.substr(e);
  while (m[m.size() - 1] == '0') m.erase(m.size() - 1);
  switch (r.below(8)) {
    case 0: break;                                                      // exactly half
    case 1: m += std::string(r.below(30), '0') + "1"; break;            // just above
    case 2: m += std::string(r.below(800), '0') + "1"; break;
    case 6: case 7: {  // the digit that decides is around the number of digits that are looked at (114 and 769)
      const size_t n = (r.chance(1, 2) ? 114 : 769) - 4 + r.below(9);
      if (m.size() < n) m += std::string(n - m.size(), '0');
      m += r.chance(1, 3) ? "0" : r.chance(1, 2) ? "1" : "00001";
      break;
    }
    case 3: {                                                           // just below
      if (m[m.size() - 1] > '0') {
        m[m.size() - 1]--;
        m += std::string(1 + r.below(40), '9');
      }
      break;
    }
    case 4: m += std::string(r.below(900), '0'); break;                 // half, with zeros
    default: m = m.substr(0, std::min<size_t>(m.size(), 2 + r.below(30))); break;  // cut short
  }
  // the same value in other notations: moved point, leading zeros
  if (r.chance(1, 4)) {  // the point anywhere
    const std::string dg = m.size() < 3 ? m.substr(0, 1) : m.substr(0, 1) + m.substr(2);
    const size_t at = r.chance(1, 3) ? dg.size() : r.below(dg.size() + 1);
    char c[32];
    snprintf(c, sizeof c, "e%d", atoi(x.c_str() + 1) - (int)at + 1);
    std::string u = r.chance(1, 6) ? std::string(r.below(60), '0') : "";
    u += dg.substr(0, at);
    if (u.empty()) u = "0";
    if (at < dg.size() || r.chance(1, 4)) u += "." + dg.substr(at);
    return u + c;
  }
  if (r.chance(1, 3)) {
    int ex = atoi(x.c_str() + 1);
    std::string dg = m.substr(0, 1) + m.substr(2);
    if (m.size() < 3) dg = m.substr(0, 1);
    if (ex >= 0 && (size_t)ex < dg.size()) return dg.substr(0, 1 + (size_t)ex) + "." + dg.substr(1 + (size_t)ex);
    if (ex < 0 && ex > -400) return "0." + std::string((size_t)(-ex - 1), '0') + dg;
    char c[32];
    snprintf(c, sizeof c, "e%d", ex - (int)dg.size() + 1);
    return dg + c;
  }
  return m + x;
}
}  // namespace

template <size_t N>
uint64_t hard_cases(const hard::Decimal (&a)[N]) {
  const ck::State& s = ck::st();
  uint64_t n = 0;
  for (size_t i = s.shard; i < N; i += s.nshards)
    for (int k = -1; k <= 1; k++, n++) {
      char b[64], c[128];
      snprintf(b, sizeof b, "%llu", (unsigned long long)(a[i].m + (uint64_t)(int64_t)k));
      snprintf(c, sizeof c, "%se%d", b, a[i].e);
      one<double>(c, true, true, '.', "double");
      one<float>(c, true, true, '.', "float");
      if (k) continue;
      // the same with more digits than fit 64 bits: a little more, in two notations
      snprintf(c, sizeof c, "%s0000000000000000000001e%d", b, a[i].e - 22);
      one<double>(c, true, true, '.', "double");
      one<float>(c, true, true, '.', "float");
      snprintf(c, sizeof c, "%.1s.%s0000000e%d", b, b + 1, a[i].e + (int)strlen(b) - 1);
      one<double>(c, true, true, '.', "double");
      one<float>(c, true, true, '.', "float");
    }
  return n;
}

int main(int argc, char** argv) {
  ck::init(argc, argv, "P11");
  ck::State& s = ck::st();
  ck::Rng r = ck::rng();
  {
    static const char A[] = {'0', '1', '9', '.', 'e', '-', '+', ' ', 'n', 'i'};
    const unsigned K = sizeof A, L = s.thorough ? 7 : 5;
    uint64_t n = 0, idx = 0, total = 1;
    for (unsigned len = 0; len <= L; len++, total *= K)
      for (uint64_t c = 0; c < total; c++, idx++) {
        if (idx % s.nshards != s.shard) continue;
        std::string t;
        uint64_t x = c;
        for (unsigned k = 0; k < len; k++, x /= K) t += A[x % K];
        for (int m = 0; m < 3; m++) {
          one<double>(t, m != 1, m != 2, '.', "double");
          one<float>(t, m != 1, m != 2, '.', "float");
        }
        n++;
      }
    ck::enumerated(n);
    ck::count("all short strings", n);
  }
  {
    const uint64_t n = hard_cases(hard::D17) + hard_cases(hard::D19) + hard_cases(hard::F9) + hard_cases(hard::F19);
    ck::enumerated(n);
    ck::count("decimals closest to half-way points", n);
    const uint64_t w = near_powers(s.shard, s.nshards, s.thorough, [](const char* t) {
      one<double>(t, true, true, '.', "double");
      one<float>(t, true, true, '.', "float");
    });
    ck::enumerated(w);
    ck::count("decimals next to powers of two and ten", w);
  }
  const uint64_t N = s.thorough ? 20000000 : 40000;
  for (uint64_t i = 0; i < N; i++) {
    std::string t;
    switch (r.below(8)) {
      case 0: case 1: t = halfway(r); break;
      case 2: {
        t = number(r);
        static const char X[] = "0123456789.eE+-xpn, \t\0\x80\xff(";
        for (unsigned k = 0, m = 1 + (unsigned)r.below(3); k < m; k++) {
          char c = X[r.below(sizeof X - 1)];
          size_t at = r.below(t.size() + 1);
          switch (r.below(3)) {
            case 0: t.insert(at, 1, c); break;
            case 1: if (at < t.size()) t[at] = c; break;
            default: if (at < t.size()) t.erase(at, 1); break;
          }
        }
        break;
      }
      case 3: {
        static const char* W[] = {"inf", "Infinity", "INFINITY", "-Infinity", "nan", "NaN", "nan(abc_1)", "-nan()", "nan(", "nan(a-b)", "infinit", "infinityx", "in", "-", "-i", "na", "iNf", "-.", "-e1", "+1", "-+1", "--1", " 1", "0x10", "1e", "1e+", "1E-x", "\x49\x0e\x46", "inF1", "nan1", "\x0e\x01\x0e"};
        t = W[r.below(sizeof W / sizeof *W)];
        if (r.chance(1, 4)) t += number(r);
        break;
      }
      case 4: {  // short fractions and integers around the limits of the fast path
        char b[64];
        uint64_t m = r.chance(1, 2) ? (1ull << (r.chance(1, 2) ? 53 : 24)) + r.below(9) - 4 : r.next() >> r.below(64);
        snprintf(b, sizeof b, "%s%llue%d", r.chance(1, 2) ? "-" : "", (unsigned long long)m, (int)r.range(-25, 25));
        t = b;
        break;
      }
      default: t = number(r); break;
    }
    any(t, r);
    if (i < 4) ck::sample("\"" + show(t) + "\"");
    ck::eval(ck::hashmem(t.data(), t.size()), t.size() > 3);
  }
  return ck::finish();
}
