// min, max, max_element, fill, distance, memcpy, pair, swap, move/forward, for any element type and length.
#include "movable.h"
#include "nanoalgorithm.h"
#include "nanocstring.h"
#include "nanofunctional.h"
#include "nanoiterator.h"
#include "nanostring.h"
#include "nanotype_traits.h"
#include "nanoutility.h"
#include "nanovector.h"
#ifdef NANOSTL_PSTL
#include "nanoexecution.h"
#endif

namespace {
using ck::Mv;
// Equal keys that can be told apart, with nothing but <
struct Item {
  int key, id;
  static unsigned long compared;
};
unsigned long Item::compared;
bool operator<(const Item& a, const Item& b) {
  Item::compared++;
  return a.key < b.key;
}
// A singly linked list: a forward iterator with nothing but *, ++, == and !=
struct Node {
  Item item;
  Node* next;
};
struct It {
  Node* n;
  Item& operator*() const { return n->item; }
  It& operator++() {
    n = n->next;
    return *this;
  }
  It operator++(int) {
    It o = *this;
    n = n->next;
    return o;
  }
};
bool operator==(const It& a, const It& b) { return a.n == b.n; }
bool operator!=(const It& a, const It& b) { return a.n != b.n; }

void minmax(ck::Rng& r) {
  int a = (int)r.range(-3, 3), b = (int)r.range(-3, 3);
  if (r.chance(1, 8)) a = r.chance(1, 2) ? INT_MIN : INT_MAX;
  if (r.chance(1, 8)) b = r.chance(1, 2) ? INT_MIN : INT_MAX;
  Item x = {a, 1}, y = {b, 2};
  ck::op("min/max of %d and %d", a, b);
  CK(&nanostl::min(x, y) == (b < a ? &y : &x) && &nanostl::max(x, y) == (a < b ? &y : &x), "min or max of %d and %d is the other one", a, b);
  CK(nanostl::min(a, b) == std::min(a, b) && nanostl::max(a, b) == std::max(a, b), "min or max of %d and %d", a, b);
  unsigned long long p = r.next(), q = r.next();
  CK(nanostl::min(p, q) == std::min(p, q) && nanostl::max(p, q) == std::max(p, q), "min or max of %llu and %llu", p, q);
  signed char c = (signed char)p, d = (signed char)q;
  CK(nanostl::min(c, d) == std::min(c, d) && nanostl::max(c, d) == std::max(c, d), "min or max of %d and %d", c, d);
  double f = r.chance(1, 8) ? NAN : (double)a, g = r.chance(1, 8) ? NAN : (double)b;
  if (r.chance(1, 8)) f = -0.0;
  CK(&nanostl::min(f, g) == (g < f ? &g : &f) && &nanostl::max(f, g) == (g > f ? &g : &f), "min or max of %g and %g", f, g);
  nanostl::less<Item> less;
  CK(less(x, y) == (a < b), "less");
}

void elements(ck::Rng& r, ck::u64& h) {
  size_t n = r.chance(1, 30) ? r.below(3000) : r.below(12);
  int spread = r.chance(1, 2) ? 3 : 100000;
  Item* a = new Item[n];  // exactly as long as it is, so that one too far is caught
  Node* list = new Node[n];
  size_t best = 0;
  for (size_t i = 0; i < n; i++) {
    a[i].key = (int)r.range(-spread, spread), a[i].id = (int)i;
    if (r.chance(1, 50)) a[i].key = r.chance(1, 2) ? INT_MIN : INT_MAX;
    list[i].item = a[i];
    list[i].next = i + 1 < n ? &list[i + 1] : 0;
    if (a[i].key > a[best].key) best = i;
    h = ck::mix(h, (unsigned)a[i].key);
  }
  ck::op("max_element of %zu, spread %d", n, spread);
  Item::compared = 0;
  Item* m = nanostl::max_element(a, a + n);
  CK(m == a + (n ? best : 0), "max_element of %zu elements is element %td instead of %zu", n, m - a, best);
  CK(Item::compared <= (n ? n - 1 : 0), "max_element of %zu elements made %lu comparisons", n, Item::compared);
  It first = {n ? list : 0}, last = {0};
  It l = nanostl::max_element(first, last);
  CK(n ? l.n == &list[best] : l.n == 0, "max_element of a list of %zu", n);
  CK(nanostl::distance(a, a + n) == (long long)n && nanostl::distance(a + n, a) == -(long long)n, "distance of %zu", n);
  const Item* ca = a;
  CK(nanostl::distance(ca, ca + n) == (long long)n, "distance of %zu", n);
  nanostl::vector<int> v;
  for (size_t i = 0; i < n; i++) v.push_back(a[i].key);
  CK(nanostl::distance(v.begin(), v.end()) == (long long)n, "distance of a vector of %zu", n);
  if (n) CK(*nanostl::max_element(v.begin(), v.end()) == a[best].key, "max_element of a vector");
  // fill a part
  size_t from = r.below(n + 1), to = from + r.below(n - from + 1);
  Item w = {777777, -1};
  ck::op("fill [%zu, %zu) of %zu", from, to, n);
#ifdef NANOSTL_PSTL
  nanostl::fill(nanostl::execution::par, a + from, a + to, w);
  nanostl::fill(nanostl::execution::par_unseq, v.begin() + (long)from, v.begin() + (long)to, 31337);
  ck::count("fills with an execution policy", 2);
#else
  nanostl::fill(a + from, a + to, w);
  nanostl::fill(v.begin() + (long)from, v.begin() + (long)to, 31337);
#endif
  for (size_t i = 0; i < n; i++) {
    bool in = i >= from && i < to;
    CK(a[i].id == (in ? -1 : (int)i) && a[i].key == (in ? 777777 : list[i].item.key), "fill [%zu, %zu): element %zu", from, to, i);
    CK(v[i] == (in ? 31337 : list[i].item.key), "fill [%zu, %zu) of a vector: element %zu", from, to, i);
  }
  It f = {from < n ? &list[from] : 0}, t = {to < n ? &list[to] : 0};
  nanostl::fill(f, t, w);
  for (size_t i = 0; i < n; i++) CK(list[i].item.id == (i >= from && i < to ? -1 : (int)i), "fill of a list: element %zu", i);
  // objects that own memory, filled by a value that is one of them
  size_t k = n < 6 ? n : 6;
  Mv* o = new Mv[k];
  for (size_t i = 0; i < k; i++) o[i] = Mv((int)i);
  if (k) {
    nanostl::fill(o, o + k, o[k - 1]);
    for (size_t i = 0; i < k; i++) CK(o[i].get() == (int)k - 1, "fill with one of the elements");
  }
  delete[] o;
  delete[] a;
  delete[] list;
}

void bytes(ck::Rng& r, ck::u64& h) {
  size_t n = r.chance(1, 20) ? r.below(70000) : r.below(70), a = r.below(9), b = r.below(9);
  unsigned char* src = new unsigned char[n + a];
  unsigned char* dst = new unsigned char[n + b];
  for (size_t i = 0; i < n + a; i++) src[i] = (unsigned char)r.next();
  memset(dst, 0x5a, n + b);
  std::vector<unsigned char> keep(src, src + n + a);
  keep.push_back(0);  // so that data() is not null
  ck::op("memcpy of %zu bytes from +%zu to +%zu", n, a, b);
  void* ret = nanostl::memcpy(dst + b, src + a, n);
  CK(ret == dst + b, "memcpy returned something else");
  CK(!::memcmp(dst + b, keep.data() + a, n) && !::memcmp(src, keep.data(), n + a), "memcpy of %zu bytes", n);
  for (size_t i = 0; i < b; i++) CK(dst[i] == 0x5a, "memcpy wrote before its destination");
  h = ck::mix(h, n * 81 + a * 9 + b);
  delete[] src;
  delete[] dst;
}

void pairs(ck::Rng& r, ck::u64& h) {
  int v[4];
  for (int i = 0; i < 4; i++) v[i] = r.chance(1, 10) ? (int)r.next() : (int)r.range(0, 2);
  ck::op("pairs (%d, %d) and (%d, %d)", v[0], v[1], v[2], v[3]);
  typedef nanostl::pair<int, Mv> P;
  P a(v[0], Mv(v[1])), b(v[2], Mv(v[3]));
  std::pair<int, int> x(v[0], v[1]), y(v[2], v[3]);
  CK((a == b) == (x == y) && (a < b) == (x < y) && (b < a) == (y < x), "comparison of pairs (%d, %d) and (%d, %d)", v[0], v[1], v[2], v[3]);
  P c(a);
  CK(c.first == v[0] && c.second.get() == v[1] && a.second.get() == v[1], "copy of a pair");
  c = b;
  CK(c.first == v[2] && c.second.get() == v[3] && b.second.get() == v[3], "assignment of a pair");
  nanostl::pair<short, long long> m = nanostl::make_pair((short)v[0], (long long)v[1] * 256);
  CK(m.first == (short)v[0] && m.second == (long long)v[1] * 256, "make_pair");
  unsigned char raw[sizeof(nanostl::pair<int, double>)] __attribute__((aligned(16)));
  memset(raw, 0xa5, sizeof raw);
  nanostl::pair<int, double>* d = new (raw) nanostl::pair<int, double>();
  CK(d->first == 0 && d->second == 0, "a default pair is not zero");
  nanostl::swap(a, b);
  CK(a.first == v[2] && a.second.get() == v[3] && b.first == v[0] && b.second.get() == v[1], "swap of pairs");
  for (int i = 0; i < 4; i++) h = ck::mix(h, (unsigned)v[i]);
}

void swaps(ck::Rng& r, ck::u64& h) {
  int a = (int)r.next(), b = (int)r.next(), x = a, y = b;
  nanostl::swap(x, y);
  CK(x == b && y == a, "swap of ints");
  nanostl::swap(x, x);
  CK(x == b, "swap of an int with itself");
  Mv p(a), q(b);
  Mv::Stats before = Mv::stats();
  nanostl::swap(p, q);
  CK(p.get() == b && q.get() == a, "swap of objects");
  CK(Mv::stats().copies == before.copies, "swap copied instead of moving");
  nanostl::swap(p, p);
  CK(p.get() == b, "swap of an object with itself");
  int m[5] = {1, 2, 3, 4, a}, n[5] = {5, 6, 7, 8, b};
  nanostl::swap(m, n);
  CK(m[0] == 5 && m[3] == 8 && m[4] == b && n[0] == 1 && n[3] == 4 && n[4] == a, "swap of arrays");
  Mv s[3] = {Mv(a), Mv(1), Mv(2)}, t[3] = {Mv(b), Mv(3), Mv(4)};
  nanostl::swap(s, t);
  CK(s[0].get() == b && s[2].get() == 4 && t[0].get() == a && t[2].get() == 2, "swap of arrays of objects");
  nanostl::string u("first"), w("the second, which is somewhat longer than the first");
  nanostl::swap(u, w);
  CK(u.size() == 51 && w == nanostl::string("first"), "swap of strings");
  h = ck::mix(h, (unsigned)a ^ (ck::u64)(unsigned)b << 32);
}

// what forward and move pass on
int kind(Mv&) { return 1; }
int kind(const Mv&) { return 2; }
int kind(Mv&&) { return 3; }
template <class T>
int pass(T&& t) {
  return kind(nanostl::forward<T>(t));
}
struct CanThrow {
  CanThrow() {}
  CanThrow(const CanThrow&) {}
  CanThrow(CanThrow&&) {}
};
struct CanNot {
  CanNot() {}
  CanNot(const CanNot&) {}
  CanNot(CanNot&&) noexcept {}
};
void categories() {
  Mv a(1);
  const Mv c(2);
  CK(pass(a) == 1 && pass(c) == 2 && pass(Mv(3)) == 3 && kind(nanostl::move(a)) == 3 && kind(nanostl::move(c)) == 2, "forward or move changed the category");
  CK(a.get() == 1, "move alone moved");
  CanThrow x;
  CanNot y;
  CK((nanostl::is_same<decltype(nanostl::move_if_noexcept(x)), const CanThrow&>::value) && (nanostl::is_same<decltype(nanostl::move_if_noexcept(y)), CanNot&&>::value), "move_if_noexcept");
  CK(&nanostl::move_if_noexcept(static_cast<const CanThrow&>(x)) == &x, "move_if_noexcept");
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P23");
  Mv::live().reserve(4096);
  ck::Rng r = ck::rng();
  categories();
  const unsigned N = ck::st().thorough ? 3000000 : 20000;
  for (unsigned i = 0; i < N; i++) {
    ck::begin_case("case %u", i);
    ck::u64 h = i % 4;
    minmax(r);
    switch (i % 4) {
      case 0: elements(r, h); ck::count("sequences"); break;
      case 1: bytes(r, h); ck::count("memory copies"); break;
      case 2: pairs(r, h); ck::count("pairs of pairs"); break;
      case 3: swaps(r, h); ck::count("sets of swaps"); break;
    }
    if (i % 5003 == 0) ck::sample(ck::last_ops(3));
    ck::eval(h, true);
  }
  CK(Mv::live().empty(), "objects outlived their owner");
  return ck::finish();
}
