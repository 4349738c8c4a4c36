// stof/stod: correctly rounded on the accepted grammar, NaN on everything outside of it, and no memory error anywhere.
#include "common.h"
#include "hard_numbers.h"
#include "near_powers.h"
#define NANOSTL_IMPLEMENTATION
#include "nanostring.h"

namespace {
struct Parsed {
  bool number;     // -? digits with at most one '.' and at least one digit, then optionally [eE][+-]?digits{1,4}
  bool malformed;  // certainly not a number in any notation that could be accepted
  unsigned digits; // significant: after the leading zeros
  bool longexp;
};
Parsed parse(const std::string& t) {
  Parsed p = {false, true, 0, false};
  size_t i = 0, n = t.size();
  if (i < n && t[i] == '-') i++;
  unsigned any = 0;
  bool dot = false, lead = true;
  for (; i < n; i++) {
    if (t[i] == '.') {
      if (dot) return p;
      dot = true;
    } else if (t[i] >= '0' && t[i] <= '9') {
      any++;
      if (t[i] != '0') lead = false;
      if (!lead) p.digits++;
    } else {
      break;
    }
  }
  if (!any) return p;
  if (i < n) {
    if (t[i] != 'e' && t[i] != 'E') return p;
    i++;
    if (i < n && (t[i] == '+' || t[i] == '-')) i++;
    size_t from = i;
    while (i < n && t[i] >= '0' && t[i] <= '9') i++;
    if (i == from || i < n) return p;
    p.longexp = i - from > 4;
  }
  p.number = true;
  p.malformed = false;
  return p;
}

nanostl::string make(const std::string& t) { return nanostl::string(t.data(), (nanostl::string::size_type)t.size()); }
std::string show(const std::string& t) {
  std::string r;
  for (size_t i = 0; i < t.size(); i++) {
    char b[8];
    if ((unsigned char)t[i] >= 0x20 && (unsigned char)t[i] < 0x7f) r += t[i];
    else snprintf(b, sizeof b, "\\x%02x", (unsigned char)t[i]), r += b;
  }
  return r;
}

void one(const std::string& t) {
  Parsed p = parse(t);
  nanostl::string s = make(t);
  ck::begin_case("\"%s\"", show(t).substr(0, 200).c_str());
  double d = nanostl::stod(s);
  float f = nanostl::stof(s);
  if (p.malformed) {
    CK(d != d, "stod(\"%s\") of something that is not a number is %a instead of NaN", show(t).c_str(), d);
    CK(f != f, "stof(\"%s\") of something that is not a number is %a instead of NaN", show(t).c_str(), (double)f);
    ck::count("malformed: NaN");
    return;
  }
  if (p.longexp) {
    ck::count("exponents of more than four digits (only no memory error)");
    return;
  }
  if (p.digits <= 17) {
    double w = strtod(t.c_str(), 0);
    CK(memcmp(&w, &d, 8) == 0, "stod(\"%s\") is %a, correctly rounded it is %a", show(t).c_str(), d, w);
    ck::count("stod correctly rounded");
  } else {
    ck::count("more than 17 digits (only no memory error)");
  }
  if (p.digits <= 9) {
    float w = strtof(t.c_str(), 0);
    CK(memcmp(&w, &f, 4) == 0, "stof(\"%s\") is %a, correctly rounded it is %a", show(t).c_str(), (double)f, (double)w);
    ck::count("stof correctly rounded");
  }
}

std::string number(ck::Rng& r) {
  std::string t;
  unsigned nd = 1 + (unsigned)r.below(r.chance(1, 2) ? 9 : r.chance(1, 20) ? 60 : 17);
  if (r.chance(1, 3)) t += '-';
  if (r.chance(1, 10)) t += std::string(r.below(r.chance(1, 10) ? 400 : 5), '0');
  unsigned dot = (unsigned)r.below(nd + 1);
  bool use = r.chance(1, 2);
  unsigned style = (unsigned)r.below(4);
  for (unsigned k = 0; k < nd; k++) {
    if (use && k == dot) t += '.';
    t += style == 0 ? (r.chance(1, 2) ? '0' : '9') : (char)('0' + (r.chance(1, 4) ? 0 : r.below(10)));
  }
  if (use && dot == nd) t += '.';
  if (r.chance(1, 2)) {
    t += r.chance(1, 2) ? 'e' : 'E';
    int lim = r.chance(1, 2) ? 40 : r.chance(1, 2) ? 350 : 9999;
    int e = (int)r.range(-lim, lim);
    if (e >= 0 && r.chance(1, 3)) t += '+';
    if (e < 0) t += '-', e = -e;
    char b[16];
    if (e < 100 && r.chance(1, 4)) snprintf(b, sizeof b, "%03d", e);
    else snprintf(b, sizeof b, "%d", e);
    t += b;
  }
  return t;
}
// the exact decimal halfway between two neighbours (up to 9 or 17 digits it is only near): rounding is hardest there
std::string halfway(ck::Rng& r) {
  char b[64];
  if (r.chance(1, 2)) {
    uint32_t u = (uint32_t)r.next() & 0x7fffffff;
    float f;
    memcpy(&f, &u, 4);
    if (!(f < FLT_MAX)) f = 1;
    snprintf(b, sizeof b, "%.*e", r.chance(1, 2) ? 8 : (int)r.below(9), (double)f / 2 + (double)nextafterf(f, FLT_MAX) / 2);
  } else {
    uint64_t u = r.next() & 0x7fffffffffffffffull;
    double f;
    memcpy(&f, &u, 8);
    if (!(f < DBL_MAX)) f = 1;
    snprintf(b, sizeof b, "%.*Le", r.chance(1, 2) ? 16 : (int)r.below(17), (long double)f / 2 + (long double)nextafter(f, DBL_MAX) / 2);
  }
  return b;
}
// halfway values that are exact within 17 digits: n + 1/2 just above 2^53
std::string exact_half(ck::Rng& r) {
  char b[64];
  if (r.chance(1, 2)) {
    uint64_t n = (1ull << 24) + r.below(1ull << 24);  // 8 digits and .5 as 2n+1
    snprintf(b, sizeof b, "%llu", (unsigned long long)(2 * n + 1));
  } else {
    uint64_t n = (1ull << 52) + r.below(1ull << 52);
    snprintf(b, sizeof b, "%llu", (unsigned long long)(2 * n + 1));
  }
  return b;
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P10");
  ck::State& s = ck::st();
  ck::Rng r = ck::rng();
  {
    // every string of up to 5 (thorough: 7) characters over the ones that matter
    static const char A[] = {'0', '1', '9', '.', 'e', 'E', '-', '+', ' ', '\0'};
    const unsigned K = sizeof A, L = s.thorough ? 7 : 5;
    uint64_t n = 0, idx = 0, total = 1;
    for (unsigned len = 0; len <= L; len++, total *= K)
      for (uint64_t c = 0; c < total; c++, idx++) {
        if (idx % s.nshards != s.shard) continue;
        std::string t;
        uint64_t x = c;
        for (unsigned k = 0; k < len; k++, x /= K) t += A[x % K];
        one(t);
        n++;
      }
    ck::enumerated(n);
    ck::count("all short strings", n);
  }
  {
    uint64_t n = 0;
    char b[48];
    const size_t d = sizeof hard::D17 / sizeof *hard::D17, f = sizeof hard::F9 / sizeof *hard::F9;
    for (size_t i = s.shard; i < d + f; i += s.nshards)
      for (int k = -1; k <= 1; k++, n++) {
        const hard::Decimal& x = i < d ? hard::D17[i] : hard::F9[i - d];
        snprintf(b, sizeof b, "%llue%d", (unsigned long long)(x.m + (uint64_t)(int64_t)k), x.e);
        one(b);
      }
    ck::enumerated(n);
    ck::count("decimals closest to half-way points", n);
    const uint64_t w = near_powers(s.shard, s.nshards, s.thorough, [](const char* t) { one(t); });
    ck::enumerated(w);
    ck::count("decimals next to powers of two and ten", w);
  }
  const uint64_t N = s.thorough ? 40000000 : 150000;
  for (uint64_t i = 0; i < N; i++) {
    std::string t;
    switch (r.below(8)) {
      case 0: t = halfway(r); break;
      case 1: t = exact_half(r); break;
      case 2: {  // damaged numbers
        t = number(r);
        static const char X[] = "0123456789.eE+-xpn, \t\n\0\x80\xff";
        for (unsigned k = 0, m = 1 + (unsigned)r.below(3); k < m; k++) {
          char c = X[r.below(sizeof X - 1)];
          size_t at = r.below(t.size() + 1);
          switch (r.below(3)) {
            case 0: t.insert(at, 1, c); break;
            case 1: if (at < t.size()) t[at] = c; break;
            default: if (at < t.size()) t.erase(at, 1); break;
          }
        }
        break;
      }
      case 3: {
        static const char* W[] = {"inf", "Infinity", "-Infinity", "nan", "NaN", "infinity", "0x1p3", "1e", "e1", "-", "+1", "1e+", "1e-", ".", "-.", ".e1", "1_0", "1,5", "1f", "1.0L", " 1", "1 ", "--1", "1-", "1e1.5", "1ee1", "1e1e1", "++", "\xc2\xb2"};
        t = W[r.below(sizeof W / sizeof *W)];
        break;
      }
      default: t = number(r); break;
    }
    one(t);
    if (i < 4) ck::sample("\"" + show(t) + "\"");
    ck::eval(ck::hashmem(t.data(), t.size()), t.size() > 3);
  }
  if (s.shard == 0) {  // every float, printed with 9 digits, reads back; sampled
    uint64_t n = 0;
    for (uint64_t u = r.below(5000); u < 0x7f800000ull; u += s.thorough ? 37 : 5003, n++) {
      uint32_t v = (uint32_t)u;
      float f;
      memcpy(&f, &v, 4);
      char b[64];
      snprintf(b, sizeof b, "%.8e", (double)f);
      float g = nanostl::stof(nanostl::string(b));
      CK(memcmp(&f, &g, 4) == 0, "stof(\"%s\") is %a instead of %a", b, (double)g, (double)f);
      g = nanostl::stof(nanostl::to_string(f));
      CK(memcmp(&f, &g, 4) == 0, "stof(to_string(%a)) is %a", (double)f, (double)g);
    }
    ck::enumerated(n);
    ck::count("floats read back", n);
  }
  return ck::finish();
}
