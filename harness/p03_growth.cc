// Cost of growing: element operations, reallocations and capacity, for long runs.
#include "containers.h"
using namespace ck;

struct CountedOps {
  static u64& ops() {
    static u64 n = 0;
    return n;
  }
  int v;
  CountedOps(int x = 0) : v(x) { ops()++; }
  CountedOps(const CountedOps& o) : v(o.v) { ops()++; }
  CountedOps& operator=(const CountedOps& o) {
    v = o.v;
    ops()++;
    return *this;
  }
};

static void bound(const char* what, double n, u64 ops, u64 moves, double cap, double peak) {
  double lg = std::log2(n + 2);
  maximum("element operations per appended element", (double)ops / n);
  maximum("reallocations / log2(n)", (double)moves / lg);
  maximum("capacity / largest size", cap / (peak < 1 ? 1 : peak));
  CK((double)ops <= 48 * n + 2000, "%s: %llu element operations for %.0f elements is not linear", what, (unsigned long long)ops, n);
  CK((double)moves <= 10 * lg + 16, "%s: %llu reallocations for %.0f elements", what, (unsigned long long)moves, n);
  CK(cap <= 8 * peak + 64, "%s: a capacity of %.0f for at most %.0f elements", what, cap, peak);
}

// grows `c` one element at a time in one of several ways
template <class C, class T>
static void grow(C& c, Rng& r, size_t n, unsigned way, const char* what) {
  const T* data = c.data();
  u64 moves = 0, ops0 = CountedOps::ops();
  size_t peak = c.size(), added = 0;
  const double start = (double)peak;
  while (added < n) {
    unsigned long long cap = c.capacity();
    switch (way) {
      case 0: c.push_back(T((int)added)); added++; break;
      case 1: c.resize(c.size() + 1); c[c.size() - 1] = T((int)added); added++; break;
      case 2:  // two forward, one back
        c.push_back(T((int)added)); c.push_back(T((int)added)); c.pop_back(); added += 2; break;
      case 3: {
        size_t k = 1 + r.below(7);
        c.resize(c.size() + k);
        added += k;
        break;
      }
      case 4:  // cleared and filled again: must not allocate a second time
        if (c.size() > 50 && r.chance(1, 2000)) c.clear();
        c.push_back(T((int)added)); added++; break;
    }
    if (c.size() > peak) peak = c.size();
    CK(c.capacity() >= c.size() && c.capacity() >= cap, "%s: the capacity went from %llu to %llu for %llu elements", what, cap,
       (unsigned long long)c.capacity(), (unsigned long long)c.size());
    if (c.data() != data) {
      CK(c.size() + (way == 2) > cap, "%s: moved %llu elements although the capacity is %llu", what, (unsigned long long)c.size(), cap);
      moves++;
      data = c.data();
    }
  }
  count("reallocations seen", moves);
  count("elements appended", added);
  bound(what, (double)added + start, CountedOps::ops() - ops0, moves, (double)c.capacity(), (double)peak);
}

int main(int argc, char** argv) {
  init(argc, argv, "P03");
  Rng r = rng(3);
  const size_t big = st().thorough ? 4000000 : 300000;
  for (unsigned round = 0; round < (st().thorough ? 40u : 12u); round++) {
    for (unsigned way = 0; way < 5; way++) {
      size_t n = round == 0 ? big / 2 + r.below(big / 2) : 1 + r.below((u64)1 << (4 + r.below(12)));
      size_t start = r.chance(1, 2) ? 0 : r.below(2000);
      begin_case("grow way %u from %zu by %zu", way, start, n);
      nanostl::vector<CountedOps> v;
      v.resize(start);
      grow<nanostl::vector<CountedOps>, CountedOps>(v, r, n, way, "vector");
      eval(mix(mix(mix(way, n), start), round), n >= 16);
      // copies, assignment and ranges are linear, too
      u64 o0 = CountedOps::ops();
      nanostl::vector<CountedOps> w(v), x;
      x = v;
      x.assign(v.begin(), v.end());
      bound("copy, assignment and assign", 3.0 * (double)v.size() + 1, CountedOps::ops() - o0, 0, (double)x.capacity(), (double)v.size());
      CK(w.size() == v.size() && x.size() == v.size(), "copies differ in size");
      CK(w.capacity() <= 8 * w.size() + 64, "copy: a capacity of %llu for %llu elements", (unsigned long long)w.capacity(), (unsigned long long)w.size());
      sample(st().casename);
    }
    {  // contents survive at any size
      size_t n = round == 0 ? big * 2 : 1 + r.below(40000);
      begin_case("contents of %zu ints", n);
      nanostl::vector<unsigned> v;
      u64 k = r.next();
      for (size_t i = 0; i < n; i++) v.push_back((unsigned)(i * 2654435761u + k));
      CK(v.size() == n, "size");
      for (size_t i = 0; i < n; i++) CK(v[i] == (unsigned)(i * 2654435761u + k), "element %zu of %zu changed while growing", i, n);
      size_t m = v.size() / 2;
      v.resize(m);
      v.resize(n);
      for (size_t i = 0; i < n; i++)
        CK(v[i] == (i < m ? (unsigned)(i * 2654435761u + k) : 0u), "element %zu of %zu after shrinking and growing", i, n);
      eval(mix(n, k), n >= 16);
    }
    {  // appending to a string
      size_t n = round == 0 ? big : 1 + r.below(5000);
      begin_case("string of %zu bytes", n);
      nanostl::string s;
      const char* p = s.c_str();
      u64 moves = 0;
      nanostl::string one("x");
      for (size_t i = 0; i < n; i++) {
        s += one;
        if (s.c_str() != p) {
          moves++;
          p = s.c_str();
        }
      }
      CK(s.size() == n && strlen(s.c_str()) == n, "string appended %zu times has %llu bytes", n, (unsigned long long)s.size());
      bound("string +=", (double)n, 0, moves, 0, 0);
      eval(mix(n, 77), n >= 16);
    }
    {
      size_t n = 1 + r.below(3000);
      begin_case("valarray resized one by one to %zu", n);
      nanostl::valarray<CountedOps> v;
      const CountedOps* p = v.data();
      u64 moves = 0, o0 = CountedOps::ops();
      for (size_t i = 0; i < n; i++) {
        v.resize(i + 1);
        if (v.data() != p) {
          moves++;
          p = v.data();
        }
      }
      bound("valarray", (double)n, CountedOps::ops() - o0, moves, (double)v.capacity(), (double)n);
      eval(mix(n, 78), n >= 16);
    }
  }
  return finish();
}
