// Pieces of work on objects of the library, each of which comes to a digest that depends on nothing but its random state
// and the constant objects it may read. Used by p21_threads.cc and p02_msan.cc. Include common.h before.
#ifndef VERIF_JOBS_H_
#define VERIF_JOBS_H_

#define NANOSTL_IMPLEMENTATION
#include "nanostl.h"
#include "__hashfunc.h"
#include "fast_float/fast_float.h"
#include "nanofunctional.h"
#include "nanomemory.h"
#include "nanooptional.h"
#include "nanosstream.h"
#include "nanotuple.h"
#include "nanovalarray.h"
#include "nanovariant.h"

namespace {
using ck::Rng;
using ck::u64;
typedef nanostl::string Str;
typedef nanostl::vector<int> Vi;
typedef nanostl::vector<Str> Vs;
typedef nanostl::map<int, int> Mi;
typedef nanostl::map<Str, Vi> Ms;
typedef nanostl::variant<int, Str, double> Var;
typedef nanostl::optional<Str> Opt;
typedef nanostl::tuple<int, Str, Vi> Tup;
typedef nanostl::valarray<float> Va;

u64 mixs(u64 h, const Str& s) { return ck::mix(h, ck::hashmem(s.c_str(), s.size())); }
u64 mixv(u64 h, const Vi& v) {
  for (size_t i = 0; i < v.size(); i++) h = ck::mix(h, (u64)v[i]);
  return ck::mix(h, v.size());
}
u64 mixf(u64 h, double d) {
  u64 b;
  memcpy(&b, &d, 8);
  return ck::mix(h, d != d ? 1 : b);
}
Str word(Rng& r) {
  char b[40];
  int n = (int)r.below(r.chance(1, 4) ? 39 : 6);
  for (int i = 0; i < n; i++) b[i] = (char)('a' + r.below(4));
  b[n] = 0;
  return Str(b);
}

// what all threads read
struct Common {
  Vi v;
  Vs vs;
  Str s, t;
  Mi m;
  Ms ms;
  Va va;
  Opt o;
  Var x;
  Tup tup;
  explicit Common(u64 seed) {
    Rng r(seed);
    for (int i = 0, n = (int)r.below(60); i < n; i++) v.push_back((int)r.below(1000));
    for (int i = 0, n = (int)r.below(20); i < n; i++) vs.push_back(word(r));
    s = word(r), t = s + word(r);
    for (int i = 0, n = (int)r.below(80); i < n; i++) m[(int)r.below(200)] = i;
    for (int i = 0, n = (int)r.below(20); i < n; i++) ms[word(r)].push_back(i);
    va.resize(7);
    for (int i = 0; i < 7; i++) va[i] = (float)r.below(100);
    o = word(r);
    x = word(r);
    tup = Tup(3, word(r), v);
  }
};

typedef u64 (*Job)(Rng&, const Common&);

u64 j_vector(Rng& r, const Common& c) {
  Vi v;
  Vs w;
  for (int i = 0, n = (int)r.below(60); i < n; i++) {
    v.push_back((int)r.below(99));
    if (r.chance(1, 3)) w.push_back(word(r));
    if (r.chance(1, 9) && v.size()) v.erase(v.begin() + (long)r.below(v.size()));
    if (r.chance(1, 9)) v.resize(r.below(40));
    if (r.chance(1, 12)) v = c.v;
    if (r.chance(1, 12)) w = c.vs;
    if (r.chance(1, 12) && !v.empty()) v.pop_back();
  }
  Vi u(v);
  u.swap(v);
  u64 h = mixv(1, v);
  for (size_t i = 0; i < w.size(); i++) h = mixs(h, w[i]);
  return ck::mix(h, u.size());
}
u64 j_string(Rng& r, const Common& c) {
  Str s = word(r);
  u64 h = 2;
  for (int i = 0; i < 20; i++) {
    switch (r.below(7)) {
      case 0: s += word(r); break;
      case 1: s = s + c.s; break;
      case 2: s = c.t; break;
      case 3: s.clear(); break;
      case 4: h = ck::mix(h, (u64)(s.compare(c.t) > 0)); break;
      case 5: s += "literal"; break;
      case 6: h = ck::mix(h, (u64)(s < c.s) * 2 + (u64)(s == c.t)); break;
    }
    h = mixs(h, s);
    if (s.size() > 200) s.clear();
  }
  return h;
}
u64 j_map(Rng& r, const Common& c) {
  Mi m;
  if (r.chance(1, 3)) m = c.m;
  Ms n(c.ms);
  u64 h = 3;
  for (int i = 0, k = (int)r.below(80); i < k; i++) {
    m[(int)r.below(100)] += i;
    if (r.chance(1, 4)) n[word(r)].push_back(i);
    if (r.chance(1, 4)) h = ck::mix(h, m.find((int)r.below(100)) == m.end());
  }
  for (Mi::iterator it = m.begin(); it != m.end(); ++it) h = ck::mix(h, (u64)it->first * 1000 + (u64)it->second);
  for (Ms::iterator it = n.begin(); it != n.end(); ++it) h = mixv(mixs(h, it->first), it->second);
  return h;
}
u64 j_valarray(Rng& r, const Common& c) {
  Va v(r.below(20) + 1), w(c.va);
  for (size_t i = 0; i < v.size(); i++) v[i] = (float)r.below(100) / 8;
  Va s = nanostl::sin(v);
  w.resize(r.below(30));
  w.swap(v);
  u64 h = 4;
  for (size_t i = 0; i < v.size(); i++) h = mixf(h, v[i]);
  for (size_t i = 0; i < s.size(); i++) h = mixf(h, s[i]);
  return h;
}
u64 j_sums(Rng& r, const Common& c) {
  Opt o, p(c.o);
  Var x(1), y(c.x);
  Tup t(1, word(r), Vi()), u(c.tup);
  u64 h = 5;
  for (int i = 0; i < 12; i++) {
    switch (r.below(8)) {
      case 0: o = p; break;
      case 1: p.swap(o); break;
      case 2: p = word(r); break;
      case 3: x = y; break;
      case 4: y = (int)r.below(9); break;
      case 5: x = word(r); break;
      case 6: t.swap(u); break;
      case 7: u = c.tup; break;
    }
    h = ck::mix(h, x.index() * 3 + y.index());
    h = o ? mixs(h, *o) : h + 1;
    h = mixv(mixs(h, tao::get<1>(t)), tao::get<2>(t));
  }
  return h;
}
u64 j_unique(Rng& r, const Common&) {
  nanostl::unique_ptr<Str> p(new Str(word(r))), q;
  nanostl::unique_ptr<int[]> a(new int[5]), b;
  for (int i = 0; i < 5; i++) a[i] = (int)r.below(50);
  q = nanostl::move(p);
  b.swap(a);
  q->operator+=("x");
  u64 h = mixs(6, *q);
  p.reset(new Str(word(r)));
  p.swap(q);
  return ck::mix(mixs(h, *q), (u64)b[2]);
}
u64 j_format(Rng& r, const Common&) {
  u64 h = 7;
  for (int i = 0; i < 8; i++) {
    u64 bits = r.next() >> r.below(64);
    double d;
    memcpy(&d, &bits, 8);
    h = mixs(h, nanostl::to_string((int)bits));
    h = mixs(h, nanostl::to_string((nanostl::int64_t)bits));
    h = mixs(h, nanostl::to_string((unsigned)bits));
    h = mixs(h, nanostl::to_string((nanostl::uint64_t)bits));
    h = mixs(h, nanostl::to_string(d));
    h = mixs(h, nanostl::to_string((float)bits / 7));
  }
  nanostl::stringstream ss;
  ss << word(r);
  ss << nanostl::to_string((int)r.below(1000));
  return mixs(h, ss.str());
}
u64 j_parse(Rng& r, const Common&) {
  u64 h = 8;
  char b[64];
  for (int i = 0; i < 8; i++) {
    int n = snprintf(b, sizeof b, "%s%llu.%lluE%d", r.chance(1, 2) ? "-" : "", (unsigned long long)r.below(100000), (unsigned long long)r.below(1000000), (int)r.range(-40, 40));
    h = mixf(h, nanostl::stod(Str(b)));
    h = mixf(h, nanostl::stof(Str(b)));
    double d = 0;
    float f = 0;
    fast_float::from_chars(b, b + n, d);
    fast_float::from_chars(b, b + n, f);
    h = mixf(mixf(h, d), f);
  }
  // long enough for the slow path
  char big[900];
  int n = 0;
  for (; n < 800; n++) big[n] = (char)('0' + r.below(10));
  big[0] = '1';
  n = 780 - (int)r.below(760);
  double d = 0;
  fast_float::from_chars(big, big + n, d);
  return mixf(h, d);
}
u64 j_math(Rng& r, const Common&) {
  u64 h = 9;
  for (int i = 0; i < 10; i++) {
    float x = (float)(r.below(2000000)) / 1000 - 1000, y = (float)r.below(100000) / 1e5f;
    h = mixf(h, nanostl::sin(x) + nanostl::cos(x));
    h = mixf(h, nanostl::exp(x / 20));
    h = mixf(h, nanostl::sqrt(y) + nanostl::log(y + 1) + nanostl::pow(y + 1, x / 100));
    h = mixf(h, nanostl::tan(y) + nanostl::ceil(x) + nanostl::floor(x) + nanostl::fabs(x));
    h = ck::mix(h, nanostl::isnan(x) + nanostl::isfinite(y));
  }
  return h;
}
u64 j_hash(Rng& r, const Common&) {
  uint8_t in[64], k[16], out[16];
  for (int i = 0; i < 64; i++) in[i] = (uint8_t)r.next();
  for (int i = 0; i < 16; i++) k[i] = (uint8_t)r.next();
  u64 h = 10;
  for (int i = 0; i < 6; i++) {
    nanostl::siphash(in, r.below(65), k, out, r.chance(1, 2) ? 8 : 16);
    u64 o;
    memcpy(&o, out, 8);
    h = ck::mix(h, o);
    h = ck::mix(h, nanostl::hash<int>()((int)r.next()));
    h = ck::mix(h, nanostl::hash<double>()((double)r.below(1000) / 3));
    h = ck::mix(h, nanostl::hash<signed char>()((signed char)r.next()));
  }
  return h;
}
u64 j_algorithm(Rng& r, const Common& c) {
  int a[30];
  int n = (int)r.below(29) + 1;
  for (int i = 0; i < n; i++) a[i] = (int)r.below(1000);
  u64 h = ck::mix(11, (u64)*nanostl::max_element(a, a + n));
  nanostl::fill(a, a + n / 2, 5);
  char dst[32];
  nanostl::memcpy(dst, a, sizeof dst);
  h = ck::mix(h, ck::hashmem(dst, sizeof(int) * (size_t)(n / 2 < 8 ? n / 2 : 8)));
  if (c.v.size()) h = ck::mix(h, (u64)*nanostl::max_element(c.v.begin(), c.v.end()));
  return ck::mix(h, (u64)nanostl::min(n, 7) + (u64)nanostl::max(n, 9));
}
u64 j_read(Rng& r, const Common& c) {
  u64 h = mixv(12, c.v);
  for (size_t i = 0; i < c.vs.size(); i++) h = mixs(h, c.vs[i]);
  h = mixs(mixs(h, c.s), c.t);
  h = ck::mix(h, (u64)c.s.compare(c.t) + c.t.length() + c.s.empty() + (c.s < c.t) + (c.s == c.t) + (c.s != c.t) + (c.t > c.s) + (c.s == "ab"));
  h = mixs(h, c.s + c.t);
  for (int i = 0; i < 20; i++) {
    Mi::const_iterator it = c.m.find((int)r.below(200)), up = c.m.upper_bound((int)r.below(200));
    h = ck::mix(h, it == c.m.end() ? 0 : (u64)it->second);
    h = ck::mix(h, up == c.m.end() ? 0 : (u64)up->first);
    Ms::const_iterator s = c.ms.find(word(r));
    if (!(s == c.ms.end())) h = mixv(h, s->second);
  }
  for (size_t i = 0; i < c.va.size(); i++) h = mixf(h, c.va[i]);
  if (c.o) h = mixs(h, *c.o);
  h = mixs(h, nonstd::get<Str>(c.x));
  h = mixv(mixs(h, tao::get<1>(c.tup)), tao::get<2>(c.tup));
  Vi v(c.v);
  Str s(c.s);
  Mi m(c.m);
  Opt o(c.o);
  Var x(c.x);
  Tup t(c.tup);
  return ck::mix(h, v.size() + s.size() + m.empty() + x.index() + (o ? 1 : 0) + (tao::get<1>(t) == tao::get<1>(c.tup)));
}
const Job JOBS[] = {j_vector, j_string, j_map, j_valarray, j_sums, j_unique, j_format, j_parse, j_math, j_hash, j_algorithm, j_read};
const char* const NAMES[] = {"vector", "string", "map", "valarray", "optional/variant/tuple", "unique_ptr", "to_string", "parse", "math", "hash", "algorithm", "read shared"};
const int NJOBS = sizeof JOBS / sizeof *JOBS;
}  // namespace

#endif
