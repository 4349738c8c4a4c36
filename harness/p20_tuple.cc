// tuple: element-wise everything, lexicographic comparison, tie, tuple_cat.
#include "movable.h"
#include "nanostring.h"
#include "nanotuple.h"

namespace {
struct MoveOnly {
  int v;
  explicit MoveOnly(int x) : v(x) {}
  MoveOnly(MoveOnly&& o) : v(o.v) { o.v = -1; }
};
using ck::Mv;
using tao::get;
typedef nanostl::string Str;
std::string str_of(int v) { return std::to_string(v) + std::string((size_t)(v & 31), 'z'); }
Str mk(int v) { return Str(str_of(v).c_str()); }
int val(const Str& t) {
  int v = atoi(t.c_str());
  std::string e = str_of(v);
  CK(t.size() == e.size() && !memcmp(t.c_str(), e.c_str(), e.size() + 1), "a string element changed");
  return v;
}
struct Empty {
  static int made, gone;
  Empty() { made++; }
  Empty(const Empty&) { made++; }
  Empty& operator=(const Empty&) { return *this; }
  ~Empty() { gone++; }
};
int Empty::made, Empty::gone;
bool operator==(const Empty&, const Empty&) { return true; }
bool operator<(const Empty&, const Empty&) { return false; }
struct Empty2 {};
bool operator==(const Empty2&, const Empty2&) { return true; }
bool operator<(const Empty2&, const Empty2&) { return false; }
struct Wide {
  alignas(32) int v;
  double pad[3];
  Wide(int x = 0) : v(x) {
    for (int i = 0; i < 3; i++) pad[i] = x + i;
  }
};
int val(const Wide& w) {
  CK((uintptr_t)&w % 32 == 0, "an element is not aligned");
  for (int i = 0; i < 3; i++) CK(w.pad[i] == w.v + i, "an element changed");
  return w.v;
}
bool operator==(const Wide& a, const Wide& b) { return val(a) == val(b); }
bool operator<(const Wide& a, const Wide& b) { return val(a) < val(b); }

typedef nanostl::tuple<int, Mv, Str, Empty, Wide, Empty2> T;
typedef nanostl::tuple<short, int, Str, Empty, int, Empty2> U;  // converts to T
struct Model {
  int v[4];
};

void same(T& t, const Model& m, const char* what) {
  const T& c = t;
  CK(get<0>(c) == m.v[0] && get<1>(c).get() == m.v[1] && val(get<2>(c)) == m.v[2] && val(get<4>(c)) == m.v[3],
     "%s: (%d, %d, %d, %d) instead of (%d, %d, %d, %d)", what, get<0>(c), get<1>(c).get(), val(get<2>(c)), val(get<4>(c)), m.v[0], m.v[1], m.v[2], m.v[3]);
  CK(&get<0>(t) == &get<0>(c) && &get<int>(t) == &get<0>(t) && &get<Mv>(c) == &get<1>(t) && &get<Str>(t) == &get<2>(t) && &get<Wide>(t) == &get<4>(t), "%s: get by type and by index disagree", what);
  const char* b = (const char*)&t;
  const char* p[4] = {(const char*)&get<0>(t), (const char*)&get<1>(t), (const char*)&get<2>(t), (const char*)&get<4>(t)};
  size_t s[4] = {sizeof(int), sizeof(Mv), sizeof(Str), sizeof(Wide)};
  for (int i = 0; i < 4; i++) {
    CK(p[i] >= b && p[i] + s[i] <= b + sizeof(T), "an element is outside of its tuple");
    for (int j = 0; j < i; j++) CK(p[i] + s[i] <= p[j] || p[j] + s[j] <= p[i], "elements overlap");
  }
}
int strorder(int a, int b) {
  std::string x = str_of(a), y = str_of(b);
  return x < y ? -1 : x > y;
}
int order(const Model& a, const Model& b) {
  for (int i = 0; i < 4; i++) {
    int c = i == 2 ? strorder(a.v[i], b.v[i]) : a.v[i] < b.v[i] ? -1 : a.v[i] > b.v[i];
    if (c) return c;
  }
  return 0;
}
template <class A, class B>
void six(const A& a, const B& b, int want, const char* what) {
  bool eq = a == b, ne = a != b, lt = a < b, gt = a > b, le = a <= b, ge = a >= b;
  CK(eq == (want == 0) && ne == (want != 0) && lt == (want < 0) && gt == (want > 0) && le == (want <= 0) && ge == (want >= 0),
     "%s: == %d != %d < %d > %d <= %d >= %d, the tuples compare as %d", what, eq, ne, lt, gt, le, ge, want);
}

void run(ck::Rng& r, uint64_t id) {
  size_t heap0 = ck::heap_bytes(), live0 = Mv::live().size();
  int e0 = Empty::made - Empty::gone;
  ck::u64 h = id;
  unsigned kinds = 0;
  enum { NS = 3 };
  struct alignas(64) Room {
    unsigned char before[64];
    alignas(64) unsigned char in[sizeof(T)];
    unsigned char after[64];
  };
  {
    Room room[NS];
    memset((void*)room, 0xa5, sizeof room);
    T* x[NS];
    Model m[NS];
    for (int i = 0; i < NS; i++) {
      x[i] = new ((void*)room[i].in) T();
      get<2>(*x[i]) = mk(0);
      memset(&m[i], 0, sizeof m[i]);
      same(*x[i], m[i], "a default tuple");
    }
    unsigned steps = 4 + (unsigned)r.below(30);
    for (unsigned s = 0; s < steps; s++) {
      unsigned i = (unsigned)r.below(NS), j = (unsigned)r.below(NS), k = (unsigned)r.below(18);
      Model w;
      bool tiny = r.chance(2, 3);
      for (int q = 0; q < 4; q++) w.v[q] = tiny ? (int)r.range(0, 1) : (int)r.range(-3000, 3000);
      h = ck::mix(h, k * 64 + i * 16 + j + ((ck::u64)(unsigned)(w.v[0] * 31 + w.v[1] * 37 + w.v[2] * 41 + w.v[3]) << 16));
      kinds |= 1u << k;
      ck::op("%u i=%u j=%u v=(%d, %d, %d, %d)", k, i, j, w.v[0], w.v[1], w.v[2], w.v[3]);
      switch (k) {
        case 0: {
          T t(w.v[0], Mv(w.v[1]), mk(w.v[2]), Empty(), Wide(w.v[3]), Empty2());
          same(t, w, "made from values");
          *x[i] = t;
          same(t, w, "copied from");
          m[i] = w;
          break;
        }
        case 1: {
          *x[i] = T(w.v[0], Mv(w.v[1]), mk(w.v[2]), Empty(), Wide(w.v[3]), Empty2());
          m[i] = w;
          break;
        }
        case 2: *x[i] = *x[j]; m[i] = m[j]; break;
        case 3: {
          *x[i] = static_cast<T&&>(*x[j]);
          m[i] = m[j];
          if (i != j) {
            m[j].v[1] = Mv::MOVED;
            get<2>(*x[j]) = mk(m[j].v[2]);
          }
          break;
        }
        case 4: {
          U u((short)w.v[0], w.v[1], mk(w.v[2]), Empty(), w.v[3], Empty2());
          *x[i] = u;
          m[i] = w;
          CK(get<0>(u) == (short)w.v[0] && get<1>(u) == w.v[1] && val(get<2>(u)) == w.v[2] && get<4>(u) == w.v[3], "converting changed the source");
          break;
        }
        case 5: {
          *x[i] = U((short)w.v[0], w.v[1], mk(w.v[2]), Empty(), w.v[3], Empty2());
          m[i] = w;
          break;
        }
        case 17: {  // tuples of references are assigned through; ignore takes everything
          int a = w.v[0], b = w.v[1], c = w.v[2], d = w.v[3];
          Mv p(a), q(c);
          tao::tie(a, b) = tao::tie(c, d);
          CK(a == w.v[2] && b == w.v[3] && c == w.v[2] && d == w.v[3], "a tie assigned from a tie");
          nanostl::tuple<int&, Mv&> x1(a, p), x2(b, q);
          const nanostl::tuple<int&, Mv&> x3(d, q);
          a = w.v[0], b = w.v[1];
          x1 = x2;
          CK(a == w.v[1] && b == w.v[1] && p.get() == w.v[2] && q.get() == w.v[2] && &get<0>(x1) == &a && &get<1>(x1) == &p, "a tuple of references assigned");
          p = Mv(w.v[0]);
          x1 = x3;
          CK(a == w.v[3] && p.get() == w.v[2] && d == w.v[3] && q.get() == w.v[2], "a tuple of references assigned from a const one");
          a = w.v[0], b = w.v[1], p = Mv(w.v[3]);
          x1.swap(x2);
          CK(a == w.v[1] && b == w.v[0] && p.get() == w.v[2] && q.get() == w.v[3] && &get<0>(x1) == &a && &get<0>(x2) == &b, "tuples of references swapped");
          six(x1, x2, w.v[1] != w.v[0] ? (w.v[1] < w.v[0] ? -1 : 1) : w.v[2] != w.v[3] ? (w.v[2] < w.v[3] ? -1 : 1) : 0, "tuples of references");
          nanostl::tuple<Mv&&> m1(static_cast<Mv&&>(p)), m2(static_cast<Mv&&>(q));
          m1 = static_cast<nanostl::tuple<Mv&&>&&>(m2);
          CK(p.get() == w.v[3] && q.get() == Mv::MOVED, "a tuple of rvalue references assigned by moving");
          nanostl::tuple<Mv&&> m3(static_cast<nanostl::tuple<Mv&&>&&>(m1));
          CK(p.get() == w.v[3] && &get<0>(m3) == &p, "a tuple of rvalue references moved");
          Str s;
          tao::tie(tao::ignore, s, a, tao::ignore) = tao::make_tuple(1.5, mk(w.v[1]), w.v[2], Mv(1));
          CK(val(s) == w.v[1] && a == w.v[2], "tie with ignore");
          break;
        }
        case 16: {  // constructed from a tuple of other types
          const U u((short)w.v[0], w.v[1], mk(w.v[2]), Empty(), w.v[3], Empty2());
          T t(u);
          w.v[0] = (short)w.v[0];
          same(t, w, "made from a tuple of other types");
          CK(get<0>(u) == w.v[0] && get<1>(u) == w.v[1] && val(get<2>(u)) == w.v[2] && get<4>(u) == w.v[3], "converting changed the source");
          U g(u);
          T q(static_cast<U&&>(g));
          same(q, w, "made from an rvalue tuple of other types");
          int a = w.v[0];
          Mv b(w.v[1]);
          const Str c(mk(w.v[2]));
          nanostl::tuple<int, Mv, Str> d(nanostl::tuple<int&, Mv&&, const Str&>(a, static_cast<Mv&&>(b), c));
          CK(get<0>(d) == w.v[0] && get<1>(d).get() == w.v[1] && val(get<2>(d)) == w.v[2], "made from a tuple of references");
          CK(b.get() == Mv::MOVED && val(c) == w.v[2], "an element of a tuple of references was copied where it had to be moved, or moved");
          nanostl::tuple<T> in(t);
          nanostl::tuple<long> one(nanostl::tuple<short>((short)w.v[0]));
          same(get<0>(in), w, "a tuple of a tuple");
          CK(get<0>(one) == w.v[0], "a tuple of one made from another");
          *x[i] = static_cast<T&&>(q);
          m[i] = w;
          break;
        }
        case 6: x[i]->swap(*x[j]); std::swap(m[i], m[j]); break;
        case 7: {
          using nanostl::swap;
          swap(*x[i], *x[j]);
          std::swap(m[i], m[j]);
          break;
        }
        case 8: {
          T c(*x[i]);
          same(c, m[i], "copy");
          get<0>(c) = w.v[0], get<1>(c) = Mv(w.v[1]), get<2>(c) = mk(w.v[2]), get<4>(c) = Wide(w.v[3]);
          same(c, w, "changed copy");
          break;
        }
        case 9: {
          T c(static_cast<T&&>(*x[i]));
          same(c, m[i], "moved");
          CK(get<1>(*x[i]).get() == Mv::MOVED, "an element was copied, not moved");
          *x[i] = static_cast<T&&>(c);
          break;
        }
        case 10: {  // tie: assigns through to the variables
          int a = 1;
          Mv b;
          Str c;
          Empty d;
          Wide e;
          Empty2 f;
          tao::tie(a, b, c, d, e, f) = *x[i];
          CK(a == m[i].v[0] && b.get() == m[i].v[1] && val(c) == m[i].v[2] && val(e) == m[i].v[3], "tie gave (%d, %d, ...)", a, b.get());
          six(tao::tie(a, b, c, d, e, f), *x[j], order(m[i], m[j]), "tie and tuple");
          a = w.v[0];
          CK(get<0>(*x[i]) == m[i].v[0], "a variable that was tied is an element now");
          break;
        }
        case 11: {  // the first and the second of a tie of a tuple's own elements, exchanged through a tuple of values
          nanostl::tuple<int, int> t(w.v[0], w.v[1]);
          int a = 0, b = 0;
          tao::tie(a, b) = t;
          CK(a == w.v[0] && b == w.v[1], "tie");
          tao::tie(b, a) = tao::make_tuple(a, b);
          CK(a == w.v[1] && b == w.v[0], "exchange through tie");
          break;
        }
        case 12: six(*x[i], *x[j], order(m[i], m[j]), "comparison"); break;
        case 13: {  // tuple_cat
          nanostl::tuple<int, Str> a(w.v[0], mk(w.v[1]));
          nanostl::tuple<Mv> b(Mv(w.v[2]));
          nanostl::tuple<> none;
          auto c = tao::tuple_cat(a, none, b, nanostl::tuple<int, Empty, short>(w.v[3], Empty(), (short)w.v[0]));
          static_assert(nanostl::is_same<decltype(c), nanostl::tuple<int, Str, Mv, int, Empty, short> >::value, "the type of tuple_cat");
          CK(get<0>(c) == w.v[0] && val(get<1>(c)) == w.v[1] && get<2>(c).get() == w.v[2] && get<3>(c) == w.v[3] && get<5>(c) == (short)w.v[0], "tuple_cat");
          CK(get<0>(a) == w.v[0] && val(get<1>(a)) == w.v[1] && get<0>(b).get() == w.v[2], "tuple_cat changed its arguments");
          auto d = tao::tuple_cat(*x[i], c);
          static_assert(tao::tuple_size<decltype(d)>::value == 12, "the size of tuple_cat");
          CK(get<0>(d) == m[i].v[0] && get<1>(d).get() == m[i].v[1] && val(get<2>(d)) == m[i].v[2] && val(get<4>(d)) == m[i].v[3] && get<6>(d) == w.v[0] &&
                 val(get<7>(d)) == w.v[1] && get<8>(d).get() == w.v[2] && get<9>(d) == w.v[3],
             "tuple_cat of six and six");
          nanostl::tuple<Mv, int> give(Mv(w.v[1]), w.v[0]);
          auto e = tao::tuple_cat(b, static_cast<nanostl::tuple<Mv, int>&&>(give), nanostl::tuple<MoveOnly>(MoveOnly(w.v[2])));
          CK(get<0>(e).get() == w.v[2] && get<0>(b).get() == w.v[2] && get<1>(e).get() == w.v[1] && get<0>(give).get() == Mv::MOVED && get<2>(e) == w.v[0] && get<3>(e).v == w.v[2],
             "tuple_cat of a tuple and two rvalues");
          break;
        }
        case 14: {  // make_tuple decays; forward_as_tuple keeps references
          const int a = w.v[0];
          Mv b(w.v[1]);
          auto t = tao::make_tuple(a, b, mk(w.v[2]));
          static_assert(nanostl::is_same<decltype(t), nanostl::tuple<int, Mv, Str> >::value, "the type of make_tuple");
          CK(get<0>(t) == a && get<1>(t).get() == w.v[1] && val(get<2>(t)) == w.v[2] && b.get() == w.v[1], "make_tuple");
          auto f = tao::forward_as_tuple(b, a);
          static_assert(nanostl::is_same<decltype(f), nanostl::tuple<Mv&, const int&> >::value, "the type of forward_as_tuple");
          CK(&get<0>(f) == &b && &get<1>(f) == &a, "forward_as_tuple refers to something else");
          get<0>(f) = Mv(w.v[3]);
          CK(b.get() == w.v[3], "writing through a tuple of references");
          break;
        }
        case 15: {  // taking an element out of an rvalue moves it
          Mv out(get<1>(static_cast<T&&>(*x[i])));
          CK(out.get() == m[i].v[1], "get of an rvalue");
          CK(get<1>(*x[i]).get() == Mv::MOVED, "get of an rvalue copied");
          get<1>(*x[i]) = Mv(w.v[1]);
          m[i].v[1] = w.v[1];
          break;
        }
      }
      for (int q = 0; q < NS; q++) same(*x[q], m[q], "after the operation");
      CK(Mv::live().size() - live0 == NS && Empty::made - Empty::gone - e0 == NS, "%zu and %d elements are alive in %d tuples", Mv::live().size() - live0, Empty::made - Empty::gone - e0, NS);
    }
    for (int i = 0; i < NS; i++) {
      x[i]->~T();
      for (int k = 0; k < 64; k++) CK(room[i].before[k] == 0xa5 && room[i].after[k] == 0xa5, "a tuple wrote outside of itself");
    }
  }
  CK(Mv::live().size() == live0 && Empty::made - Empty::gone == e0, "elements outlived their tuple");
  size_t heap1 = ck::heap_bytes();
  CK(heap1 == heap0, "%zu bytes are in use after the tuples are gone, %zu before", heap1, heap0);
  if (id % 3001 == 0) ck::sample(ck::last_ops(5));
  ck::eval(h, __builtin_popcount(kinds) >= 4);
}

static_assert(tao::tuple_size<T>::value == 6 && tao::tuple_size<nanostl::tuple<> >::value == 0 && tao::tuple_size<const U>::value == 6, "tuple_size");
static_assert(nanostl::is_same<tao::tuple_element<0, T>::type, int>::value && nanostl::is_same<tao::tuple_element<4, T>::type, Wide>::value &&
                  nanostl::is_same<tao::tuple_element<5, T>::type, Empty2>::value, "tuple_element");

// every pair of tuples of three small numbers, and of different element types
void all_pairs() {
  uint64_t n = 0;
  for (int a = 0; a < 64; a++)
    for (int b = 0; b < 64; b++, n++) {
      nanostl::tuple<int, int, int> x(a / 16, a / 4 % 4, a % 4), y(b / 16, b / 4 % 4, b % 4);
      nanostl::tuple<short, long, unsigned char> z((short)(b / 16), b / 4 % 4, (unsigned char)(b % 4));
      ck::begin_case("tuples of the digits of %d and %d in base 4", a, b);
      six(x, y, a < b ? -1 : a > b, "three ints");
      six(x, z, a < b ? -1 : a > b, "int/int/int and short/long/char");
    }
  ck::enumerated(n);
  ck::count("all pairs of small tuples", n);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P20");
  Mv::live().reserve(4096);
  ck::Rng r = ck::rng();
  if (ck::st().shard == 0) all_pairs();
  const unsigned N = ck::st().thorough ? 1000000 : 12000;
  for (unsigned i = 0; i < N; i++) {
    ck::begin_case("case %u", i);
    run(r, i);
  }
  ck::count("elements made", Mv::stats().made);
  ck::count("elements moved", Mv::stats().moves);
  return ck::finish();
}
