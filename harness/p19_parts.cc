// variant: assignment of a part of the value it holds, visits of up to five variants that tell which object each of
// them holds, arguments of emplace and in_place, null pointers.
#include <type_traits>
#include <vector>
#include "movable.h"
#include "nanooptional.h"
#include "nanostring.h"
#include "nanovariant.h"
#include "nanovector.h"

namespace {
using ck::Mv;
typedef nanostl::string Str;

// A document: a number, a text, or an array of documents.
struct Doc;
typedef nanostl::vector<Doc> Arr;
typedef nanostl::variant<int, Str, Arr, Mv> Val;
struct Doc {
  Val v;
};
struct Model {
  int kind, n;
  std::string s;
  std::vector<Model> a;
  Model() : kind(0), n(0) {}
};
std::string text(ck::Rng& r) { return std::string((size_t)r.below(40), (char)('a' + r.below(26))); }
void make(ck::Rng& r, int depth, Val& v, Model& m) {
  m = Model();
  m.kind = (int)r.below(depth > 0 ? 4 : 3);
  if (m.kind == 2 && depth <= 0) m.kind = 3;
  if (depth > 1) m.kind = 2;
  switch (m.kind) {
    case 0: v = m.n = (int)r.range(-99, 99); break;
    case 1: m.s = text(r), v = Str(m.s.c_str()); break;
    case 3: m.n = (int)r.range(-99, 99), v = Mv(m.n); break;
    default: {
      unsigned n = (unsigned)r.below(4);
      if (depth > 1) n++;
      m.a.resize(n);
      Arr a;
      a.resize(n);
      for (unsigned i = 0; i < n; i++) make(r, depth - 1, a[i].v, m.a[i]);
      v = a;
    }
  }
}
size_t live_in(const Model& m) {
  size_t n = m.kind == 3;
  for (size_t i = 0; i < m.a.size(); i++) n += live_in(m.a[i]);
  return n;
}
void same(const Val& v, const Model& m, const char* what) {
  CK(v.index() == (size_t)m.kind, "%s: holds alternative %zu instead of %d", what, (size_t)v.index(), m.kind);
  switch (m.kind) {
    case 0: CK(nonstd::get<int>(v) == m.n, "%s: %d instead of %d", what, nonstd::get<int>(v), m.n); break;
    case 1:
      CK(nonstd::get<Str>(v).size() == m.s.size() && !memcmp(nonstd::get<Str>(v).c_str(), m.s.c_str(), m.s.size() + 1), "%s: another text", what);
      break;
    case 3: CK(nonstd::get<Mv>(v).get() == m.n, "%s: %d instead of %d", what, nonstd::get<Mv>(v).get(), m.n); break;
    default:
      CK(nonstd::get<Arr>(v).size() == m.a.size(), "%s: %zu elements instead of %zu", what, (size_t)nonstd::get<Arr>(v).size(), m.a.size());
      for (size_t i = 0; i < m.a.size(); i++) same(nonstd::get<Arr>(v)[i].v, m.a[i], what);
  }
}
unsigned parts(ck::Rng& r) {
  size_t heap0 = ck::heap_bytes(), live0 = Mv::live().size();
  unsigned h = 0;
  {
    Val v;
    Model m;
    make(r, 3, v, m);
    same(v, m, "made");
    for (int step = 0; step < 20 && m.kind == 2 && m.a.size(); step++) {
      // some descendant
      Val* p = &v;
      Model* q = &m;
      do {
        size_t i = (size_t)r.below(q->a.size());
        p = &nonstd::get<Arr>(*p)[i].v;
        q = &q->a[i];
        h = h * 5 + (unsigned)i + 1;
      } while (q->kind == 2 && q->a.size() && r.chance(1, 2));
      // (An array assigned from a part of itself is the array's business, and undefined for std::vector.)
      if (q->kind == 2) continue;
      Model keep = *q;
      bool value = r.chance(1, 2);
      ck::op("assign a part of kind %d, %s", keep.kind, value ? "its value" : "the variant");
      Val& ret = !value ? v = *p : keep.kind == 0 ? v = nonstd::get<int>(*p) : keep.kind == 1 ? v = nonstd::get<Str>(*p) : v = nonstd::get<Mv>(*p);
      CK(&ret == &v, "assignment");
      m = keep;
      same(v, m, "assigned a part of itself");
      CK(Mv::live().size() - live0 == live_in(m), "%zu tracked values are alive instead of %zu", Mv::live().size() - live0, live_in(m));
      ck::count("parts assigned");
    }
  }
  CK(Mv::live().size() == live0, "values outlived their variant");
  CK(ck::heap_bytes() == heap0, "memory is in use after the variants are gone");
  return h;
}

// which objects, of which types, does a visit see?
struct Own {  // cannot be copied
  int v;
  Own() : v(0) {}
  explicit Own(int x) : v(x) {}
  Own(Own&& o) noexcept : v(o.v) {}
  Own(const Own&) = delete;
  Own& operator=(const Own&) = delete;
};
typedef nanostl::variant<int, Own> A;
typedef nanostl::variant<Mv, short> B;
typedef nanostl::variant<Str, Own> C;
typedef nanostl::variant<double, Mv> D;
typedef nanostl::variant<Own, char> E;
template <class T>
const int& kind() {
  static const int k = 0;
  return k;
}
struct Seen {
  const void* at[5];
  const int* kind[5];
};
struct Look {
  Seen* s;
  template <class... T>
  int operator()(const T&... t) const {
    const void* at[] = {&t...};
    const int* k[] = {&::kind<T>()...};
    for (size_t i = 0; i < sizeof...(T); i++) s->at[i] = at[i], s->kind[i] = k[i];
    return (int)sizeof...(T);
  }
};
struct Pick {  // a visitor that returns a reference to a value
  template <class... T>
  const void* operator()(const T&... t) const {
    const void* at[] = {&t...};
    return at[sizeof...(T) - 1];
  }
};
template <class V, class T0, class T1>
void where(const V& v, const void*& at, const int*& k) {
  if (v.index() == 0)
    at = &nonstd::get<0>(v), k = &kind<T0>();
  else
    at = &nonstd::get<1>(v), k = &kind<T1>();
}
unsigned visits(ck::Rng& r) {
  unsigned bits = (unsigned)r.below(32);
  int v = (int)r.range(0, 100);
  A a(v);
  if (bits & 1) a.emplace<1>(v);
  B b(static_cast<short>(v));
  if (bits & 2) b = Mv(v);
  C c(Str("c"));
  if (bits & 4) c.emplace<1>(v);
  D d(1.5);
  if (bits & 8) d = Mv(v);
  E e('e');
  if (bits & 16) e.emplace<0>(v);
  Seen want, got;
  where<A, int, Own>(a, want.at[0], want.kind[0]);
  where<B, Mv, short>(b, want.at[1], want.kind[1]);
  where<C, Str, Own>(c, want.at[2], want.kind[2]);
  where<D, double, Mv>(d, want.at[3], want.kind[3]);
  where<E, Own, char>(e, want.at[4], want.kind[4]);
  size_t live0 = Mv::live().size();
  const Look look = {&got};
  for (int n = 1; n <= 5; n++) {
    memset((void*)&got, 0, sizeof got);
    int w = n == 1 ? nonstd::visit(look, a) : n == 2 ? nonstd::visit(look, a, b) : n == 3 ? nonstd::visit(look, a, b, c) : n == 4 ? nonstd::visit(look, a, b, c, d) : nonstd::visit(look, a, b, c, d, e);
    CK(w == n, "a visit of %d variants passed %d values", n, w);
    for (int i = 0; i < n; i++) CK(got.at[i] == want.at[i] && got.kind[i] == want.kind[i], "a visit of %d variants passed something else than what the variant %d holds", n, i);
    const void* last = n == 1 ? nonstd::visit(Pick(), a) : n == 2 ? nonstd::visit(Pick(), a, b) : n == 3 ? nonstd::visit(Pick(), a, b, c) : n == 4 ? nonstd::visit(Pick(), a, b, c, d) : nonstd::visit(Pick(), a, b, c, d, e);
    CK(last == want.at[n - 1], "what a visitor of %d variants returned is not the value of the last one", n);
  }
  CK(Mv::live().size() == live0, "a visit changed how many values there are");
  ck::count("visits of one to five variants");
  return bits;
}

// what arrives at the constructor is what was given: an lvalue, a const one, an rvalue
template <class T>
char how();
template <>
char how<Mv&>() {
  return 'l';
}
template <>
char how<const Mv&>() {
  return 'c';
}
template <>
char how<Mv>() {
  return 'r';
}
struct Fwd {
  char seen[4];
  Mv took;
  Fwd() { strcpy(seen, "-"); }
  template <class X, class Y, class Z>
  Fwd(X&& x, Y&& y, Z&& z) : took(static_cast<Z&&>(z)) {
    seen[0] = how<X>(), seen[1] = how<Y>(), seen[2] = how<Z>(), seen[3] = 0;
    (void)x, (void)y;
  }
};
typedef nanostl::variant<int, Fwd> VF;
typedef nanostl::optional<Fwd> OF;
void forward(ck::Rng& r) {
  int v = (int)r.range(1, 50);
  Mv l(v), z(v);
  const Mv c(v);
  struct Check {
    static void it(const Fwd& f, Mv& z, int v, const char* what) {
      CK(!strcmp(f.seen, "lcr") && f.took.get() == v, "%s forwarded its arguments as %s, %d", what, f.seen, f.took.get());
      CK(z.get() == Mv::MOVED, "%s did not move its argument", what);
      z = Mv(v);
    }
  };
  VF x;
  Check::it(x.emplace<Fwd>(l, c, static_cast<Mv&&>(z)), z, v, "emplace<T> of a variant");
  Check::it(x.emplace<1>(l, c, static_cast<Mv&&>(z)), z, v, "emplace<I> of a variant");
  VF y(nonstd::in_place_type<Fwd>, l, c, static_cast<Mv&&>(z));
  Check::it(nonstd::get<1>(y), z, v, "in_place_type");
  VF w(nonstd::in_place_index<1>, l, c, static_cast<Mv&&>(z));
  Check::it(nonstd::get<1>(w), z, v, "in_place_index");
  OF o;
  o.emplace(l, c, static_cast<Mv&&>(z));
  Check::it(*o, z, v, "emplace of an optional");
  OF p(nonstd::in_place, l, c, static_cast<Mv&&>(z));
  Check::it(*p, z, v, "in_place of an optional");
  CK(l.get() == v && c.get() == v, "an argument that is an lvalue changed");
  ck::count("arguments forwarded");
}
void nulls() {
  VF* p = 0;
  const VF* q = 0;
  CK(!nonstd::get_if<int>(p) && !nonstd::get_if<int>(q) && !nonstd::get_if<0>(p) && !nonstd::get_if<0>(q) && !nonstd::get_if<Fwd>(p) && !nonstd::get_if<1>(q),
     "get_if of a null pointer is not null");
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P19");
  Mv::live().reserve(65536);
  ck::count("parts assigned", 0);
  ck::Rng r = ck::rng();
  ck::begin_case("get_if of null pointers");
  nulls();
  const unsigned N = ck::st().thorough ? 300000 : 1500;
  for (unsigned i = 0; i < N; i++) {
    ck::begin_case("case %u", i);
    ck::u64 s = r.s;
    unsigned h = parts(r);
    h = h * 32 + visits(r);
    forward(r);
    ck::eval(ck::mix(s, h), true);
  }
  return ck::finish();
}
