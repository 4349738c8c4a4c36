// Number of key comparisons per map operation, for hostile insertion orders.
#include "common.h"
#include "nanostring.h"
#include "nanomap.h"
using namespace ck;

static u64 cmps;
struct Key {
  int v;
  Key(int x = 0) : v(x) {}
};
static bool operator==(const Key& a, const Key& b) { cmps++; return a.v == b.v; }
static bool operator!=(const Key& a, const Key& b) { cmps++; return a.v != b.v; }
static bool operator<(const Key& a, const Key& b) { cmps++; return a.v < b.v; }
static bool operator>(const Key& a, const Key& b) { cmps++; return a.v > b.v; }
static bool operator<=(const Key& a, const Key& b) { cmps++; return a.v <= b.v; }
static bool operator>=(const Key& a, const Key& b) { cmps++; return a.v >= b.v; }

typedef nanostl::map<Key, int> M;
static const char* ORDERS[] = {"ascending", "descending", "zigzag outside-in", "zigzag inside-out", "random", "bit reversal",
                               "organ pipe", "sorted blocks", "two interleaved runs", "strided"};
static const unsigned NORDERS = 10;

static std::vector<int> order(unsigned o, unsigned n, Rng& r) {
  std::vector<int> k(n);
  for (unsigned i = 0; i < n; i++) k[i] = (int)i;
  switch (o) {
    case 1: std::reverse(k.begin(), k.end()); break;
    case 2: for (unsigned i = 0; i < n; i++) k[i] = (int)(i & 1 ? n - 1 - i / 2 : i / 2); break;
    case 3: for (unsigned i = 0; i < n; i++) k[i] = (int)(i & 1 ? n / 2 + i / 2 + 1 : n / 2 - i / 2); break;
    case 4: for (unsigned i = n; i > 1; i--) std::swap(k[i - 1], k[r.below(i)]); break;
    case 5: {
      unsigned bits = 0;
      while ((1u << bits) < n) bits++;
      k.clear();
      for (unsigned i = 0; i < (1u << bits); i++) {
        unsigned x = 0;
        for (unsigned b = 0; b < bits; b++) x |= ((i >> b) & 1) << (bits - 1 - b);
        if (x < n) k.push_back((int)x);
      }
      break;
    }
    case 6: for (unsigned i = 0; i < n; i++) k[i] = (int)(i < n / 2 ? 2 * i : 2 * (n - 1 - i) + 1); break;
    case 7: {
      unsigned b = 1 + (unsigned)r.below(n);
      std::vector<int> t;
      for (unsigned s = 0; s < b; s++)
        for (unsigned i = (s * 7919u) % b; i < n; i += b) if (t.size() < n) t.push_back((int)(i + s * n));
      k = t;
      break;
    }
    case 8: for (unsigned i = 0; i < n; i++) k[i] = (int)(i & 1 ? n + i / 2 : i / 2); break;
    case 9: {
      unsigned stride = 1 + (unsigned)r.below(n);
      std::vector<int> t;
      for (unsigned s = 0; s < stride; s++)
        for (unsigned i = s; i < n; i += stride) t.push_back((int)i);
      k = t;
      break;
    }
  }
  return k;
}

struct Cost {
  u64 sum, max, n;
  Cost() : sum(0), max(0), n(0) {}
  void add(u64 c) {
    sum += c;
    n++;
    if (c > max) max = c;
  }
  void check(const char* what, const char* ord, unsigned size) {
    if (!n) return;
    double lg = std::log2((double)size + 2), avg = (double)sum / (double)n;
    maximum((std::string(what) + ": mean comparisons / log2(n)").c_str(), avg / lg);
    maximum((std::string(what) + ": largest comparisons / log2(n)").c_str(), (double)max / lg);
    CK(avg <= 6 * lg + 10, "%s: %.1f comparisons on average with %u keys inserted in %s order", what, avg, size, ord);
    CK((double)max <= 16 * lg + 30, "%s: %llu comparisons at worst with %u keys inserted in %s order", what, (unsigned long long)max, size, ord);
  }
};

static void probe(M& m, const std::vector<int>& k, Rng& r, const char* ord, const char* which) {
  Cost find, up, idx, dup, miss;
  unsigned n = (unsigned)k.size();
  for (unsigned i = 0; i < 4000; i++) {
    int key = k[r.below(n)];
    cmps = 0;
    bool ok = m.find(Key(key)) != m.end();
    find.add(cmps);
    CK(ok, "%s: find does not find key %d", which, key);
    cmps = 0;
    m.upper_bound(Key(key));
    up.add(cmps);
    cmps = 0;
    m[Key(key)]++;
    idx.add(cmps);
    cmps = 0;
    m.insert(nanostl::pair<const Key, int>(Key(key), 1));
    dup.add(cmps);
    cmps = 0;
    ok = m.find(Key(-1 - (int)r.below(1000))).isEnd() && m.find(Key(2000000000)).isEnd();
    miss.add(cmps / 2);
    CK(ok, "%s: find finds an absent key", which);
  }
  find.check("find", ord, n);
  up.check("upper_bound", ord, n);
  idx.check("operator[] of a present key", ord, n);
  dup.check("insert of a present key", ord, n);
  miss.check("find of an absent key", ord, n);
  count("operations probed", find.n * 6);
}

int main(int argc, char** argv) {
  init(argc, argv, "P07");
  Rng r = rng(7);
  const unsigned sizes[] = {1, 2, 3, 10, 100, 1000, 5000, st().thorough ? 1000000u : 40000u, st().thorough ? 300000u : 15000u};
  for (unsigned q = 0; q < sizeof sizes / sizeof *sizes; q++)
    for (unsigned o = 0; o < NORDERS; o++) {
      if ((q * NORDERS + o) % st().nshards != st().shard) continue;
      std::vector<int> k = order(o, sizes[q], r);
      begin_case("%zu keys, %s", k.size(), ORDERS[o]);
      M m;
      Cost ins;
      for (size_t i = 0; i < k.size(); i++) {
        cmps = 0;
        m.insert(nanostl::pair<const Key, int>(Key(k[i]), (int)i));
        ins.add(cmps);
        CK((double)cmps <= 16 * std::log2((double)i + 3) + 40, "insert number %zu takes %llu comparisons (%s order)", i,
           (unsigned long long)cmps, ORDERS[o]);
      }
      ins.check("insert", ORDERS[o], (unsigned)k.size());
      probe(m, k, r, ORDERS[o], "map");
      {
        M c(m), d;
        d = m;
        probe(c, k, r, ORDERS[o], "copy");
        probe(d, k, r, ORDERS[o], "assigned");
        // copies go on growing like the original, also those of empty maps
        M none, e(none), f;
        f[Key(1)] = 1;
        f = none;
        M* grow[] = {&c, &d, &e, &f};
        const char* names[] = {"insert into a copy", "insert into an assigned map", "insert into a copy of an empty map", "insert into a map that an empty one was assigned to"};
        std::vector<int> more = order((o + 1) % 2, 2000, r);
        for (int w = 0; w < 4; w++) {
          Cost g;
          for (size_t i = 0; i < more.size(); i++) {
            cmps = 0;
            grow[w]->insert(nanostl::pair<const Key, int>(Key(3000000 + more[i]), 0));
            g.add(cmps);
          }
          g.check(names[w], ORDERS[o], (w < 2 ? (unsigned)k.size() : 0) + 2000);
        }
      }
      // one iteration visits everything, in order
      cmps = 0;
      u64 seen = 0;
      int last = INT_MIN;
      for (M::iterator it = m.begin(); it != m.end(); ++it, seen++) {
        CK(it->first.v > last, "iteration is not in key order");
        last = it->first.v;
      }
      CK(seen == k.size(), "iteration visits %llu of %zu keys", (unsigned long long)seen, k.size());
      double lg = std::log2((double)k.size() + 2);
      CK((double)cmps <= (10 * lg + 16) * (double)k.size() + 100, "iteration over %zu keys takes %llu comparisons (%s order)", k.size(),
         (unsigned long long)cmps, ORDERS[o]);
      eval(mix(mix(q, o), hashmem(k.data(), k.size() * sizeof(int))), k.size() >= 100);
      sample(st().casename);
    }
  return finish();
}
