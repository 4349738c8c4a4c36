// variant holds exactly one value of one alternative: every operation against a model, with lifetimes.
#include <algorithm>
#include <type_traits>
#include <vector>
#include "movable.h"
#include "nanofunctional.h"
#include "nanooptional.h"
#include "nanostring.h"
#include "nanovariant.h"

namespace {
using ck::Mv;
typedef nanostl::string Str;
struct Thrown {};

// The values of each alternative stand for integers. A type that counts down to an exception.
struct alignas(32) Wide {
  int v;
  double pad[6];
  Wide(int x = 0) : v(x) {
    for (int i = 0; i < 6; i++) pad[i] = x - i;
  }
};
int fuse = -1;  // copies and moves until one throws; negative: none
void tick() {
  if (fuse >= 0 && fuse-- == 0) throw Thrown();
}
template <int K>
struct BombT {
  Mv m;
  char more[K * 24 + 1];
  BombT() { memset(more, K, sizeof more); }
  explicit BombT(int v) : m(v) { memset(more, K, sizeof more); }
  BombT(const BombT& o) : m((tick(), o.m)) { memset(more, K, sizeof more); }
  BombT(BombT&& o) noexcept(K != 0) : m((K ? (void)0 : tick(), static_cast<Mv&&>(o.m))) { memset(more, K, sizeof more); }
  BombT& operator=(const BombT& o) {
    tick();
    m = o.m;
    return *this;
  }
  BombT& operator=(BombT&& o) noexcept(K != 0) {
    if (!K) tick();
    m = static_cast<Mv&&>(o.m);
    return *this;
  }
};
template <int I>
struct Num {
  Mv m;
  unsigned char more[I * 3 + 1];
  Num() { memset(more, I, sizeof more); }
  explicit Num(int v) : m(v) { memset(more, I, sizeof more); }
};

std::string str_of(int v) { return std::to_string(v) + std::string((size_t)(v & 31), 'y'); }
int val(const int& t) { return t; }
int val(const double& t) { return (int)t; }
int val(const Mv& t) { return t.get(); }
template <int K>
int val(const BombT<K>& t) {
  for (size_t i = 0; i < sizeof t.more; i++) CK(t.more[i] == K, "an alternative changed");
  return t.m.get();
}
int val(const Wide& t) {
  CK((uintptr_t)&t % 32 == 0, "an over-aligned alternative is not aligned");
  for (int i = 0; i < 6; i++) CK(t.pad[i] == t.v - i, "an alternative changed");
  return t.v;
}
int val(const Str& t) {
  int v = atoi(t.c_str());
  std::string e = str_of(v);
  CK(t.size() == e.size() && !memcmp(t.c_str(), e.c_str(), e.size() + 1), "a string alternative changed");
  return v;
}
template <int I>
int val(const Num<I>& t) {
  for (size_t i = 0; i < sizeof t.more; i++) CK(t.more[i] == I, "an alternative changed");
  return t.m.get();
}
template <class T>
struct Make {
  static T of(int v) { return T(v); }
};
template <>
struct Make<Str> {
  static Str of(int v) { return Str(str_of(v).c_str()); }
};
// does a moved-from value hold Mv::MOVED?
template <class T>
struct Moves {
  enum { value = 1 };
};
template <>
struct Moves<int> {
  enum { value = 0 };
};
template <>
struct Moves<double> {
  enum { value = 0 };
};
template <>
struct Moves<Str> {
  enum { value = 0 };
};
template <>
struct Moves<Wide> {
  enum { value = 0 };
};
template <class T>
struct IsTracked {
  enum { value = Moves<T>::value };
};
template <class T>
int ord(int a, int b) {
  return a < b ? -1 : a > b;
}
template <>
int ord<Str>(int a, int b) {
  std::string x = str_of(a), y = str_of(b);
  return x < y ? -1 : x > y;
}
#define CMP(T, TA)                                                                \
  TA bool operator==(const T& a, const T& b) { return val(a) == val(b); }         \
  TA bool operator<(const T& a, const T& b) { return val(a) < val(b); }           \
  TA bool operator>(const T& a, const T& b) { return val(a) > val(b); }
CMP(Wide, )
CMP(BombT<I>, template <int I>)
CMP(Num<I>, template <int I>)

struct Model {
  int alt;  // -1: valueless
  int v;
};

// everything that needs the alternative as a constant
template <class V, int I>
struct At {
  typedef typename nonstd::variant_alternative<(size_t)I, V>::type T;
  static T make(int v) { return Make<T>::of(v); }
  static void check(V& x, int v, const char* what) {
    const V& c = x;
    CK(nonstd::holds_alternative<T>(c), "%s: holds_alternative is false for alternative %d", what, I);
    CK(val(nonstd::get<(size_t)I>(c)) == v, "%s: get<%d> is %d instead of %d", what, I, val(nonstd::get<(size_t)I>(c)), v);
    CK(&nonstd::get<T>(x) == &nonstd::get<(size_t)I>(x) && &nonstd::get<T>(c) == &nonstd::get<(size_t)I>(x), "%s: get by type and by index disagree", what);
    CK(nonstd::get_if<T>(&x) == &nonstd::get<T>(x) && nonstd::get_if<(size_t)I>(&c) == &nonstd::get<T>(x), "%s: get_if", what);
    CK((const char*)&nonstd::get<T>(x) >= (const char*)&x && (const char*)(&nonstd::get<T>(x) + 1) <= (const char*)(&x + 1), "%s: the value is outside", what);
  }
  static void check_not(V& x, const char* what) {
    const V& c = x;
    CK(!nonstd::holds_alternative<T>(c), "%s: holds_alternative is true for alternative %d", what, I);
    CK(!nonstd::get_if<T>(&x) && !nonstd::get_if<T>(&c) && !nonstd::get_if<(size_t)I>(&x) && !nonstd::get_if<(size_t)I>(&c),
       "%s: get_if is not null for alternative %d", what, I);
  }
  static void assign_copy(V& x, int v) {
    const T t(make(v));
    V& r = x = t;
    CK(&r == &x && val(t) == v, "assignment");
  }
  static void assign_move(V& x, int v) {
    T t(make(v));
    x = static_cast<T&&>(t);
  }
  static void emplace_i(V& x, int v) {
    T& t = x.template emplace<(size_t)I>(make(v));
    CK(&t == &nonstd::get<(size_t)I>(x), "emplace returned something else");
  }
  static void emplace_t(V& x, int v) {
    T& t = x.template emplace<T>(make(v));
    CK(&t == &nonstd::get<T>(x), "emplace returned something else");
  }
  static void construct(V& x, int v, unsigned how) {
    x.~V();
    const T t(make(v));
    switch (how % 4) {
      case 0: new ((void*)&x) V(t); break;
      case 1: new ((void*)&x) V(make(v)); break;
      case 2: new ((void*)&x) V(nonstd::in_place_index<(size_t)I>, t); break;
      default: new ((void*)&x) V(nonstd::in_place_type<T>, t); break;
    }
  }
  static void change(V& x, int v) { nonstd::get<(size_t)I>(x) = make(v); }
  static int order(int a, int b) { return ord<T>(a, b); }
  static bool moves() { return Moves<T>::value; }
  static int take(V& x) {
    T t(nonstd::get<(size_t)I>(static_cast<V&&>(x)));
    return val(t);
  }
  static void index_of() { CK(V::template index_of<T>() == (size_t)I, "index_of alternative %d is %zu", I, (size_t)V::template index_of<T>()); }
};

template <class V, int N>
struct Table {
  template <int I, bool go>
  struct Loop {
    static void check(V& x, const Model& m, const char* w) {
      if (m.alt == I)
        At<V, I>::check(x, m.v, w);
      else
        At<V, I>::check_not(x, w);
      Loop<I + 1, (I + 1 < N)>::check(x, m, w);
    }
    static void act(int alt, unsigned what, V& x, int v) {
      if (alt != I) {
        Loop<I + 1, (I + 1 < N)>::act(alt, what, x, v);
        return;
      }
      typedef At<V, I> A;
      switch (what) {
        case 0: A::assign_copy(x, v); break;
        case 1: A::assign_move(x, v); break;
        case 2: A::emplace_i(x, v); break;
        case 3: A::emplace_t(x, v); break;
        case 4:
        case 5:
        case 6:
        case 7: A::construct(x, v, what); break;
        case 8: A::change(x, v); break;
      }
    }
    static int order(int alt, int a, int b) { return alt == I ? At<V, I>::order(a, b) : Loop<I + 1, (I + 1 < N)>::order(alt, a, b); }
    static bool moves(int alt) { return alt == I ? At<V, I>::moves() : Loop<I + 1, (I + 1 < N)>::moves(alt); }
    static bool safe(int alt) { return alt == I ? std::is_nothrow_move_constructible<typename At<V, I>::T>::value : Loop<I + 1, (I + 1 < N)>::safe(alt); }
    static int read(int alt, V& x) { return alt == I ? val(nonstd::get<(size_t)I>(x)) : Loop<I + 1, (I + 1 < N)>::read(alt, x); }
    static int take(int alt, V& x) { return alt == I ? At<V, I>::take(x) : Loop<I + 1, (I + 1 < N)>::take(alt, x); }
    static void index_of() {
      At<V, I>::index_of();
      Loop<I + 1, (I + 1 < N)>::index_of();
    }
  };
  template <int I>
  struct Loop<I, false> {
    static void check(V&, const Model&, const char*) {}
    static void act(int, unsigned, V&, int) {}
    static int order(int, int, int) { return 0; }
    static bool moves(int) { return false; }
    static bool safe(int) { return false; }
    static int read(int, V&) { return 0; }
    static int take(int, V&) { return 0; }
    static void index_of() {}
  };
  typedef Loop<0, true> Run;
};

struct One {
  template <class T>
  long operator()(const T& t) const {
    return val(t) * 64L + (long)sizeof(T) % 64;
  }
};
struct Two {
  template <class T, class U>
  long operator()(const T& t, const U& u) const {
    return val(t) * 1000003L + val(u);
  }
};
struct Three {
  template <class T, class U, class W>
  long operator()(const T& t, const U& u, const W& w) const {
    return (val(t) * 10007L + val(u)) * 10007L + val(w);
  }
};

template <class V>
void visit_more(V& a, V& b, V& c, const Model& x, const Model& y, const Model& z, nonstd::variants::detail::T4*) {
  long w = nonstd::visit(Two(), a, b);
  CK(w == x.v * 1000003L + y.v, "visit of two variants saw %ld", w);
  w = nonstd::visit(Three(), a, b, c);
  CK(w == (x.v * 10007L + y.v) * 10007L + z.v, "visit of three variants saw %ld", w);
  ck::count("visits of several variants");
}
template <class V>
void visit_more(V&, V&, V&, const Model&, const Model&, const Model&, void*) {}

template <class V, int N>
void same(V& x, const Model& m, const char* what) {
  const V& c = x;
  CK(c.index() == (m.alt < 0 ? (size_t)-1 : (size_t)m.alt) && c.valueless_by_exception() == (m.alt < 0), "%s: the alternative is %zu instead of %d", what, (size_t)c.index(), m.alt);
  Table<V, N>::Run::check(x, m, what);
}

template <class V, int N>
void run(ck::Rng& r, const char* tn, uint64_t id, bool throwing) {
  size_t heap0 = ck::heap_bytes(), live0 = Mv::live().size();
  typedef typename Table<V, N>::Run Run;
  ck::u64 h = id;
  unsigned kinds = 0;
  enum { NS = 3 };
  struct alignas(64) Room {
    unsigned char before[64];
    alignas(64) unsigned char in[sizeof(V)];
    unsigned char after[64];
  };
  {
    Room room[NS];
    memset((void*)room, 0xa5, sizeof room);
    V* x[NS];
    Model m[NS];
    Run::index_of();
    for (int i = 0; i < NS; i++) {
      x[i] = new ((void*)room[i].in) V();
      CK(x[i]->index() == 0, "a default variant does not hold its first alternative");
      Run::act(0, 8, *x[i], i);
      m[i].alt = 0, m[i].v = i;
    }
    unsigned steps = 4 + (unsigned)r.below(36);
    for (unsigned s = 0; s < steps; s++) {
      unsigned i = (unsigned)r.below(NS), j = (unsigned)r.below(NS), k = (unsigned)r.below(18);
      int alt = (int)r.below(N), v = (int)r.range(-6, 6);
      if (r.chance(1, 2) && m[i].alt >= 0) alt = m[i].alt;
      h = ck::mix(h, k * 1024 + i * 64 + j * 16 + (unsigned)alt + ((ck::u64)(unsigned)v << 20));
      kinds |= 1u << k;
      int lit = throwing && r.chance(1, 3) ? (int)r.below(4) : -1;
      ck::op("%u i=%u j=%u alt=%d v=%d fuse=%d", k, i, j, alt, v, lit);
      Model before[NS];
      for (int q = 0; q < NS; q++) before[q] = m[q];
      if (k == 8 && m[i].alt < 0) continue;
      try {
        if (k < 4 || (k >= 9 && k <= 12) || k == 14 || k == 15) fuse = lit;
        switch (k) {
          case 0:
          case 1:
          case 2:
          case 3:
          case 4:
          case 5:
          case 6:
          case 7:
            Run::act(alt, k, *x[i], v);
            m[i].alt = alt, m[i].v = v;
            break;
          case 8:
            Run::act(m[i].alt, 8, *x[i], v);
            m[i].v = v;
            break;
          case 9:
          case 10: {
            V& ret = *x[i] = *x[j];
            CK(&ret == x[i], "assignment");
            m[i] = m[j];
            break;
          }
          case 11: {
            *x[i] = static_cast<V&&>(*x[j]);
            m[i] = m[j];
            if (i != j && m[j].alt >= 0) {
              if (Run::moves(m[j].alt))
                m[j].v = Mv::MOVED;
              else
                Run::act(m[j].alt, 8, *x[j], v), m[j].v = v;
            }
            break;
          }
          case 12: {
            V c(*x[i]);
            fuse = -1;
            same<V, N>(c, m[i], "copy");
            same<V, N>(*x[i], m[i], "copied");
            Run::act(alt, 0, c, v);
            same<V, N>(*x[i], m[i], "the original of a changed copy");
            break;
          }
          case 13: {
            V c(static_cast<V&&>(*x[i]));
            same<V, N>(c, m[i], "moved");
            Model g = m[i];
            if (m[i].alt >= 0 && Run::moves(m[i].alt)) {
              g.v = Mv::MOVED;
              same<V, N>(*x[i], g, "moved-from");
            }
            *x[i] = static_cast<V&&>(c);
            break;
          }
          case 14: x[i]->swap(*x[j]); std::swap(m[i], m[j]); break;
          case 15: {
            using nanostl::swap;
            swap(*x[i], *x[j]);
            std::swap(m[i], m[j]);
            break;
          }
          case 16: {
            const V &a = *x[i], &b = *x[j];
            int want = m[i].alt != m[j].alt ? (m[i].alt < m[j].alt ? -1 : 1) : m[i].alt < 0 ? 0 : Run::order(m[i].alt, m[i].v, m[j].v);
            bool eq = a == b, ne = a != b, lt = a < b, gt = a > b, le = a <= b, ge = a >= b;
            CK(eq == (want == 0) && ne == (want != 0) && lt == (want < 0) && gt == (want > 0) && le == (want <= 0) && ge == (want >= 0),
               "== %d != %d < %d > %d <= %d >= %d, the variants compare as %d", eq, ne, lt, gt, le, ge, want);
            break;
          }
          case 17:
            if (m[i].alt >= 0) {
              long w = nonstd::visit(One(), *x[i]);
              CK(w >> 6 == m[i].v, "visit saw %ld instead of %d", w >> 6, m[i].v);
              unsigned k3 = (unsigned)r.below(NS);
              if (m[j].alt >= 0 && m[k3].alt >= 0) visit_more(*x[i], *x[j], *x[k3], m[i], m[j], m[k3], (typename nonstd::variant_alternative<4, V>::type*)0);
              if (r.chance(1, 3)) {
                int got = Run::take(m[i].alt, *x[i]);
                CK(got == m[i].v, "get of an rvalue gave %d instead of %d", got, m[i].v);
                if (Run::moves(m[i].alt))
                  m[i].v = Mv::MOVED;
                else
                  Run::act(m[i].alt, 8, *x[i], v), m[i].v = v;
              }
            }
            break;
        }
        fuse = -1;
      } catch (const Thrown&) {
        // An exception leaves the value it did not reach, or none at all; the other variants are as they were.
        fuse = -1;
        ck::count("exceptions thrown by an alternative");
        for (int q = 0; q < NS; q++) {
          m[q] = before[q];
          bool swapped = (k == 14 || k == 15) && (q == (int)i || q == (int)j);
          if ((q == (int)i || swapped) && x[q]->valueless_by_exception()) {
            m[q].alt = -1;
            ck::count("variants left without a value");
          } else if (swapped) {  // half way through a swap: one of the two values, or what a move left
            CK(x[q]->index() == (size_t)before[i].alt || x[q]->index() == (size_t)before[j].alt, "a swap that threw left another alternative");
            m[q].alt = (int)x[q]->index();
            int now = Run::read(m[q].alt, *x[q]);
            CK(now == before[i].v || now == before[j].v || (now == Mv::MOVED && Run::moves(m[q].alt)), "a swap that threw left %d", now);
            m[q].v = now;
          }
        }
        // What is copied is copied before anything is given up, if moving it then cannot throw.
        int to = k == 0 ? alt : k == 9 || k == 10 ? before[j].alt : -1;
        if (to >= 0 && Run::safe(to)) {
          CK(m[i].alt >= 0 || before[i].alt < 0, "a copy assignment that threw left the variant without a value");
          ck::count("copy assignments that threw");
        }
      }
      for (int q = 0; q < NS; q++) same<V, N>(*x[q], m[q], "after the operation");
      size_t n = 0;
      for (int q = 0; q < NS; q++) n += m[q].alt >= 0 && Run::moves(m[q].alt);
      CK(Mv::live().size() - live0 == n, "%zu tracked values are alive, %zu variants hold one", Mv::live().size() - live0, n);
    }
    for (int i = 0; i < NS; i++) {
      x[i]->~V();
      for (int k = 0; k < 64; k++) CK(room[i].before[k] == 0xa5 && room[i].after[k] == 0xa5, "a variant wrote outside of itself");
    }
  }
  CK(Mv::live().size() == live0, "values outlived their variant");
  size_t heap1 = ck::heap_bytes();
  CK(heap1 == heap0, "%zu bytes are in use after the variants are gone, %zu before", heap1, heap0);
  ck::count(tn);
  if (id % 3001 == 0) ck::sample(ck::last_ops(5));
  ck::eval(h, __builtin_popcount(kinds) >= 4);
}
// hash: equal variants hash equally, and the hash tells the alternatives and the values of a few thousand apart
typedef nanostl::variant<int, double, float, long, unsigned, nanostl::variant<int, long>, short, nonstd::monostate, signed char, unsigned char, unsigned short, long long,
                         unsigned long, unsigned long long, bool, nanostl::optional<int> > VH;
typedef nanostl::variant<long, short> VH2;
template <class V, int I>
struct Hashes {
  typedef typename nonstd::variant_alternative<(size_t)I, V>::type T;
  template <class X>
  static X of(int v, X*) { return X(v); }
  static nonstd::monostate of(int, nonstd::monostate*) { return nonstd::monostate(); }
  static nanostl::variant<int, long> of(int v, nanostl::variant<int, long>*) { return nanostl::variant<int, long>((long)v); }
  static void run(int v, std::vector<V>& all) {
    all.push_back(V(nonstd::in_place_index<(size_t)I>, of(v, (T*)0)));
    Hashes<V, I - 1>::run(v, all);
  }
};
template <class V>
struct Hashes<V, -1> {
  static void run(int, std::vector<V>&) {}
};
template <class V, int N>
void hashes(ck::Rng& r, uint64_t id) {
  std::vector<V> all;
  int base = (int)r.range(0, 100);
  for (int v = 0; v < 5; v++) Hashes<V, N - 1>::run(base + v, all);
  const nanostl::hash<V> h = nanostl::hash<V>();
  std::vector<nanostl::size_t> seen;
  for (size_t i = 0; i < all.size(); i++) {
    const V a(all[i]);
    nanostl::size_t w = h(a);
    CK(w == h(all[i]) && w == nanostl::hash<V>()(V(all[i])), "the copies of a variant hash differently");
    for (size_t j = 0; j < all.size(); j++)
      if (all[j] == a) CK(h(all[j]) == w, "equal variants hash differently");
    seen.push_back(w);
  }
  std::sort(seen.begin(), seen.end());
  size_t distinct = (size_t)(std::unique(seen.begin(), seen.end()) - seen.begin());
  CK(distinct >= 5, "%zu variants, five values of each alternative, have %zu hashes", all.size(), distinct);
  ck::count("variants hashed", all.size());
  ck::eval(ck::mix(id, (ck::u64)base * 2 + (N == 2)), true);
}
typedef nanostl::variant<int, Mv, Str, Wide> V4;
typedef nanostl::variant<double, BombT<0>, Mv, BombT<1>, int> VB;
typedef nanostl::variant<Num<0>, Num<1>, Num<2>, Num<3>, Num<4>, Num<5>, Num<6>, Num<7>, Num<8>, Num<9>, Num<10>, Num<11>, Num<12>, Num<13>, Num<14>, Num<15> > V16;
typedef nanostl::variant<Mv> V1;
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P19");
  Mv::live().reserve(4096);
  ck::count("exceptions thrown by an alternative", 0);
  ck::count("variants left without a value", 0);
  ck::count("visits of several variants", 0);
  ck::count("copy assignments that threw", 0);
  try {  // the runtime allocates on the first exception
    throw Thrown();
  } catch (const Thrown&) {
  }
  ck::Rng r = ck::rng();
  {
    typedef nanostl::variant<nonstd::monostate, int> M;
    const nonstd::monostate a, b;
    CK(a == b && !(a != b) && a <= b && a >= b && !(a < b) && !(a > b), "monostates are not all equal");
    CK(nanostl::hash<nonstd::monostate>()(a) == nanostl::hash<nonstd::monostate>()(b), "monostates hash differently");
    M x, y, z(5);
    CK(x.index() == 0 && nonstd::holds_alternative<nonstd::monostate>(x) && x == y && !(x != y) && x < z && !(z < x) && x != z, "a variant of monostate and int, compared");
    y = z;
    CK(y == z && nonstd::get<int>(y) == 5, "a variant of monostate and int, assigned");
    y = nonstd::monostate();
    CK(y == x && y.index() == 0, "a variant made empty with monostate");
    z.swap(y);
    CK(z.index() == 0 && y.index() == 1 && nonstd::get<1>(y) == 5, "a variant of monostate and int, swapped");
  }
  for (unsigned i = 0; i < 60; i++) {
    ck::begin_case("hashes %u", i);
    hashes<VH, 16>(r, i);
    hashes<VH2, 2>(r, i);
  }
  const unsigned N = ck::st().thorough ? 1000000 : 8000;
  for (unsigned i = 0; i < N; i++) {
    static const char* names[] = {"int/tracked/string/over-aligned", "double/throwing/tracked/throwing/int", "sixteen alternatives", "one alternative"};
    ck::begin_case("%s case %u", names[i % 4], i);
    switch (i % 4) {
      case 0: run<V4, 4>(r, names[0], i, false); break;
      case 1: run<VB, 5>(r, names[1], i, true); break;
      case 2: run<V16, 16>(r, names[2], i, false); break;
      case 3: run<V1, 1>(r, names[3], i, false); break;
    }
  }
  ck::count("values moved", Mv::stats().moves);
  return ck::finish();
}
