// Everything that nanostl offers, used with types, deleters and iterators of the standard library, all of whose headers are included: argument-dependent
// lookup then finds the functions of namespace std too, and a call that leaves out its namespace is ambiguous or goes astray.
#include <array>
#include <cerrno>
#include <chrono>
#include <complex>
#include <deque>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <ratio>
#include <sstream>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <valarray>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <string_view>
#include <variant>
#endif
#include "common.h"
#define NANOSTL_IMPLEMENTATION
#include "nanoalgorithm.h"
#include "nanochrono.h"
#include "nanoexecution.h"
#include "nanofunctional.h"
#include "nanoinitializer_list.h"
#include "nanoiterator.h"
#include "nanolimits.h"
#include "nanomap.h"
#include "nanomath.h"
#include "nanomemory.h"
#include "nanooptional.h"
#include "nanosstream.h"
#include "nanostring.h"
#include "nanotuple.h"
#include "nanotype_traits.h"
#include "nanoutility.h"
#include "nanovalarray.h"
#include "nanovariant.h"
#include "nanovector.h"

namespace {
using ck::u64;
using std::string;

// make<T>(k): values that compare like k
template <class T> struct make;
template <> struct make<string> { static string get(int k) { return "a string that is too long to be stored in place " + string(1, (char)('A' + k)); } };
template <> struct make<std::vector<int> > { static std::vector<int> get(int k) { return std::vector<int>(3, k); } };
template <> struct make<std::pair<int, string> > { static std::pair<int, string> get(int k) { return std::pair<int, string>(k / 2, string(1, (char)('A' + k))); } };
template <> struct make<std::tuple<string, int> > { static std::tuple<string, int> get(int k) { return std::tuple<string, int>(string(), k); } };
template <> struct make<std::array<string, 2> > { static std::array<string, 2> get(int k) { std::array<string, 2> a; a[1] = string(1, (char)('A' + k)); return a; } };
template <> struct make<std::map<string, int> > { static std::map<string, int> get(int k) { std::map<string, int> m; m["x"] = k; return m; } };
template <> struct make<std::list<string> > { static std::list<string> get(int k) { return std::list<string>(2, string(1, (char)('A' + k))); } };
template <> struct make<std::deque<int> > { static std::deque<int> get(int k) { return std::deque<int>(2, k); } };
template <> struct make<std::shared_ptr<int> > {
  static std::shared_ptr<int> get(int k) {
    static std::shared_ptr<int> all[64];
    static int values[64];
    if (!all[k]) all[k] = std::shared_ptr<int>(&values[k], [](int *) {});
    return all[k];
  }
};
template <> struct make<std::chrono::milliseconds> { static std::chrono::milliseconds get(int k) { return std::chrono::milliseconds(k); } };
template <> struct make<std::vector<string>::iterator> {
  static std::vector<string>::iterator get(int k) {
    static std::vector<string> v(64);
    return v.begin() + k;
  }
};
#if __cplusplus >= 201703L
template <> struct make<std::optional<string> > { static std::optional<string> get(int k) { return string(1, (char)('A' + k)); } };
template <> struct make<std::variant<int, string> > { static std::variant<int, string> get(int k) { return string(1, (char)('A' + k)); } };
template <> struct make<std::string_view> { static std::string_view get(int k) { static const char c[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+-"; return std::string_view(c + k, 1); } };
#endif

template <class T> T mk(int k) { return make<T>::get(k); }

template <class T> struct has_own_swap : std::true_type {};
template <> struct has_own_swap<std::chrono::milliseconds> : std::false_type {};
template <> struct has_own_swap<std::vector<string>::iterator> : std::false_type {};
#if __cplusplus >= 201703L
template <> struct has_own_swap<std::string_view> : std::false_type {};
#endif
template <class T> void swap_more(ck::Rng&, std::false_type) {}
template <class T> void swap_more(ck::Rng&, std::true_type) {
  T sa[2] = {mk<T>(1), mk<T>(2)}, sb[2] = {mk<T>(3), mk<T>(4)};
  nanostl::swap(sa, sb);
  CK(sa[0] == mk<T>(3) && sb[1] == mk<T>(2), "swap of arrays");
  nanostl::optional<T> o(mk<T>(1)), p(mk<T>(2)), e;
  o.swap(p), e.swap(o), nonstd::optional_lite::swap(o, p);
  CK(*e == mk<T>(2) && *o == mk<T>(1) && !p, "swap of optionals");
  nanostl::variant<int, T> v(mk<T>(1)), w(mk<T>(2)), x(3);
  v.swap(w), x.swap(v);
  CK(nonstd::get<1>(x) == mk<T>(2) && nonstd::get<1>(w) == mk<T>(1) && nonstd::get<0>(v) == 3, "swap of variants");
  nanostl::tuple<T, int> t(mk<T>(1), 2), u(mk<T>(3), 4);
  t.swap(u), swap(t, u), t.swap(u);
  CK(tao::get<0>(t) == mk<T>(3) && tao::get<1>(u) == 2, "swap of tuples");
  ck::count("std: swaps of composed objects");
}

template <class T> void containers(ck::Rng& r) {
  // vector
  std::vector<T> model;
  nanostl::vector<T> v, w;
  for (int i = 0; i < 30; i++) {
    T x = mk<T>((int)r.below(20));
    switch (r.below(8)) {
      case 0: if (!model.empty()) { size_t k = r.below(model.size()); v.erase(v.begin() + (long)k); model.erase(model.begin() + (long)k); } break;
      case 1: if (!model.empty()) v.pop_back(), model.pop_back(); break;
      case 2: { size_t n = r.below(12); v.resize(n), model.resize(n); } break;
      case 3: w = v; w.push_back(x); v.swap(w); model.push_back(x); break;
      case 4: { nanostl::vector<T> c(v); w.assign(c.begin(), c.end()); nanostl::swap(v, w); } break;
      case 5: v.assign(model.data(), model.data() + model.size()); break;
      default: v.push_back(x), model.push_back(x);
    }
    CK(v.size() == model.size(), "vector size");
    for (size_t k = 0; k < model.size(); k++) CK(v[k] == model[k] && v.at(k) == model[k] && *(v.begin() + (long)k) == model[k], "vector element %zu", k);
  }
  ck::count("std: vectors");
  // valarray
  nanostl::valarray<T> a(5), b(2);
  for (int i = 0; i < 5; i++) a[i] = mk<T>(i);
  b = a, b.resize(7), b.swap(a);
  CK(a.size() == 7 && b.size() == 5 && a[4] == mk<T>(4) && b[4] == a[4] && a[6] == T(), "valarray");
  // algorithms, on iterators of the standard library too
  T arr[9];
  int idx[9], top = 0;
  std::vector<T> sv;
  std::list<T> sl;
  std::deque<T> sd;
  for (int i = 0; i < 9; i++) {
    idx[i] = (int)r.below(20);
    if (idx[i] > idx[top]) top = i;
    arr[i] = mk<T>(idx[i]);
    sv.push_back(arr[i]), sl.push_back(arr[i]), sd.push_back(arr[i]);
  }
  CK(nanostl::max_element(arr, arr + 9) - arr == top && nanostl::max_element(sv.begin(), sv.end()) - sv.begin() == top &&
         std::distance(sl.begin(), nanostl::max_element(sl.begin(), sl.end())) == top && nanostl::max_element(sd.begin(), sd.end()) - sd.begin() == top, "max_element");
  CK(nanostl::distance(sv.begin(), sv.end()) == 9 && nanostl::distance(arr + 2, arr + 9) == 7 && nanostl::distance(sd.begin(), sd.end()) == 9, "distance");
  CK(nanostl::min(arr[0], arr[1]) == mk<T>(std::min(idx[0], idx[1])) && nanostl::max(arr[0], arr[1]) == mk<T>(std::max(idx[0], idx[1])), "min, max");
  T f = mk<T>(21);
  nanostl::fill(arr + 1, arr + 8, f), nanostl::fill(sv.begin(), sv.end(), f), nanostl::fill(sl.begin(), sl.end(), f), nanostl::fill(sd.begin(), sd.end(), f);
#if defined(NANOSTL_PSTL) && __cplusplus >= 201703L
  nanostl::fill(nanostl::execution::par, sv.begin(), sv.end(), f), nanostl::fill(nanostl::execution::par_unseq, arr + 1, arr + 8, f);
#endif
  CK(arr[1] == f && arr[7] == f && !(arr[8] == f) && sv.back() == f && sl.front() == f && sd[4] == f, "fill");
  CK(nanostl::less<T>()(mk<T>(1), mk<T>(2)) && !nanostl::less<T>()(mk<T>(2), mk<T>(2)), "less");
  // utilities
  T c(mk<T>(3)), d(nanostl::move_if_noexcept(c));
  CK(d == mk<T>(3), "move_if_noexcept");
  T e(nanostl::move(d)), g = nanostl::forward<T>(e);
  g = mk<T>(4);
  nanostl::swap(g, d = mk<T>(5));
  CK(g == mk<T>(5) && d == mk<T>(4), "swap");
  // (swapping arrays, optionals, variants and tuples of a class of the standard library without a swap of its own is a known finding, see p29_swap.cc)
  swap_more<T>(r, std::integral_constant<bool, has_own_swap<T>::value>());
  typedef nanostl::pair<T, T> P;
  P p(mk<T>(1), mk<T>(2)), q = nanostl::make_pair(mk<T>(1), mk<T>(3)), s(p);
  CK(p == s && !(p == q) && p < q && !(q < p), "pairs");
  s = q;
  P t(nanostl::move(s));
  nanostl::swap(p, t);
  CK(p == q && t.second == mk<T>(2), "swap of pairs");
  ck::count("std: algorithms and utilities");
}

// types that are ordered by > and can be the value of a map
template <class T> void maps(ck::Rng& r) {
  std::map<T, T> model;
  nanostl::map<T, T> m, n;
  for (int i = 0; i < 25; i++) {
    T k = mk<T>((int)r.below(20)), x = mk<T>((int)r.below(20));
    switch (r.below(4)) {
      case 0: m[k] = x, model[k] = x; break;
      case 1: m.insert(nanostl::pair<const T, T>(k, x)), model.insert(std::make_pair(k, x)); break;
      case 2: n = m, n[k] = x; break;
      default: { nanostl::map<T, T> c(m); CK((c.find(k) == c.end()) == (model.find(k) == model.end()), "find in a copy of a map"); }
    }
    typename nanostl::map<T, T>::iterator it = m.begin();
    for (typename std::map<T, T>::iterator j = model.begin(); j != model.end(); ++j, ++it) CK(it != m.end() && it->first == j->first && it->second == j->second, "element of a map");
    CK(it == m.end(), "a map has more elements than it should");
    CK((m.upper_bound(k) == m.end()) == (model.upper_bound(k) == model.end()), "upper_bound");
  }
  ck::count("std: maps");
}

struct Count {
  int* n;
  template <class T> void operator()(T* p) const { ++*n; delete p; }
};
template <class T> struct Derived : T {
  explicit Derived(const T& t) : T(t) {}
};

template <class T> void pointers() {
  typedef nanostl::unique_ptr<T> U;
  U a(new T(mk<T>(1))), b(nanostl::move(a)), c;
  CK(!a && *b == mk<T>(1), "unique_ptr moved");
  c = nanostl::move(b);
  a.swap(c), nanostl::swap(a, b);
  CK(b && !a && *b == mk<T>(1) && b != nullptr && a == nullptr && !(a == b), "unique_ptr swapped");
  b.reset(new T(mk<T>(2)));
  U d(b.release());
  CK(*d == mk<T>(2) && !b && (d < b) != (b < d) && d >= d && d <= d && (d > b) == (b < d), "unique_ptr released");
  nanostl::unique_ptr<const T> cc(nanostl::move(d)), ce;
  ce = U(new T(mk<T>(3)));
  cc = nanostl::move(ce);
  CK(*cc == mk<T>(3), "unique_ptr to const");
  nanostl::unique_ptr<T[]> e(new T[3]), f(nanostl::move(e)), g;
  f[2] = mk<T>(4);
  g = nanostl::move(f), g.swap(e), nanostl::swap(e, f);
  CK(f[2] == mk<T>(4) && !e && !g, "unique_ptr to array");
  f.reset(new T[2]), f.reset(), f = nullptr;
  // deleters of the standard library
  {
    typedef nanostl::unique_ptr<T, std::default_delete<T> > S;
    typedef nanostl::unique_ptr<const T, std::default_delete<const T> > SC;
    S p(new T(mk<T>(5))), q(nanostl::move(p)), r(new T(mk<T>(6)), std::default_delete<T>()), s(new T(mk<T>(7)), r.get_deleter());
    p = nanostl::move(q), p.swap(r), nanostl::swap(p, s);
    CK(*p == mk<T>(7) && *s == mk<T>(6) && *r == mk<T>(5), "unique_ptr with std::default_delete");
    SC x(nanostl::move(p)), y;
    y = nanostl::move(s);
    y = nanostl::move(x);
    x.reset(new T(mk<T>(8)));
    CK(*y == mk<T>(7) && *x == mk<T>(8) && !p && !s, "unique_ptr with std::default_delete, converted");
    nanostl::unique_ptr<T[], std::default_delete<T[]> > u(new T[2]), v(nanostl::move(u)), w(new T[2], std::default_delete<T[]>());
    u = nanostl::move(v), u.swap(w), nanostl::swap(u, v), u.reset();
    nanostl::unique_ptr<const T[], std::default_delete<const T[]> > cu(nanostl::move(w)), cv;
    cv = nanostl::move(v), cv = nanostl::move(cu);
    CK(cv && !cu && !v && !w, "unique_ptr to array with std::default_delete");
  }
  int n = 0;
  {
    typedef nanostl::unique_ptr<T, std::function<void(T*)> > F;
    Count count = {&n};
    F p(new T(mk<T>(1)), count), q(nanostl::move(p)), r(new T(mk<T>(2)), [&n](T* t) { n += 100; delete t; });
    r = nanostl::move(q);  // 100
    CK(n == 100 && *r == mk<T>(1), "unique_ptr with std::function: %d", n);
    F s(new T(mk<T>(3)), [&n](T* t) { n += 10000; delete t; });
    s.swap(r), nanostl::swap(s, r), s.swap(r);
    CK(*s == mk<T>(1) && *r == mk<T>(3), "unique_ptr with std::function swapped");
    std::function<void(T*)> fn(count);
    F u(new T(mk<T>(4)), fn);
    nanostl::unique_ptr<T, std::function<void(T*)>&> x(new T(mk<T>(5)), fn), y(nanostl::move(x));
    const std::function<void(T*)> cf(count);
    nanostl::unique_ptr<T, const std::function<void(T*)>&> z(new T(mk<T>(5)), cf);
    nanostl::unique_ptr<T[], std::function<void(T*)> > arr(new T[2], [&n](T* t) { n += 1000000; delete[] t; }), arr2(nanostl::move(arr));
    arr = nanostl::move(arr2), arr.swap(arr2), nanostl::swap(arr, arr2);
  }
  CK(n == 100 + 1 + 10000 + 3 + 1000000, "what the deleters saw: %d", n);
  ck::count("std: unique_ptrs");
}

template <class T> void bases() {
  nanostl::unique_ptr<Derived<T> > d(new Derived<T>(mk<T>(1)));
  struct B { virtual ~B() {} T t; B() : t(mk<T>(2)) {} };
  struct D : B { T u; D() : u(mk<T>(3)) {} };
  nanostl::unique_ptr<D, std::default_delete<D> > e(new D), f(new D);
  nanostl::unique_ptr<B, std::default_delete<B> > b(nanostl::move(e)), c;
  c = nanostl::move(f);
  c.swap(b);
  CK(b->t == mk<T>(2) && c->t == mk<T>(2) && !e && !f, "unique_ptr to base with std::default_delete");
  nanostl::unique_ptr<B, std::function<void(B*)> > g;
  g = nanostl::unique_ptr<D, std::function<void(B*)> >(new D, [](B* p) { delete p; });
  nanostl::unique_ptr<B, std::function<void(B*)> > h(nanostl::unique_ptr<D, std::function<void(B*)> >(new D, [](B* p) { delete p; }));
  CK(g && h, "unique_ptr to base with std::function");
  ck::count("std: pointers to bases");
}

template <class T> void sums(ck::Rng& r) {
  typedef nanostl::optional<T> O;
  O o, p(mk<T>(1)), q(p), s(nanostl::move(q));
  o = p, p = mk<T>(2), s = O(), o = nanostl::move(p);
  CK(*o == mk<T>(2) && !s && o.value() == mk<T>(2) && s.value_or(mk<T>(9)) == mk<T>(9) && o != s && s < o && o == mk<T>(2) && mk<T>(1) < o && o == O(mk<T>(2)) && !(o < o), "optional");
  o.emplace(mk<T>(5)), s.emplace(o.value());
  CK(o == s && *nonstd::make_optional(mk<T>(3)) == mk<T>(3), "optional emplaced");
  nonstd::optional<O> oo(o);
  CK(**oo == mk<T>(5), "optional of optional");
  o.reset();
  o = nonstd::nullopt;
  CK(!o && o == nonstd::nullopt, "optional reset");

  typedef nanostl::variant<int, T, std::vector<string>*, std::chrono::seconds> V;
  V v, w(mk<T>(1)), x(w), y(nanostl::move(x));
  v = y, w = 3, x = mk<T>(4), y = nanostl::move(x);
  CK(nonstd::get<1>(v) == mk<T>(1) && nonstd::get<T>(y) == mk<T>(4) && nonstd::get<int>(w) == 3 && nonstd::get_if<T>(&v) && !nonstd::get_if<int>(&v) && nonstd::holds_alternative<int>(w), "variant");
  w.template emplace<1>(mk<T>(6)), v.template emplace<3>(2), v = w;
  CK(v.index() == 1 && v == w && !(v != w) && !(v < w) && nonstd::get<1>(v) == mk<T>(6), "variant emplaced");
  struct Visit {
    int operator()(int) const { return 0; }
    int operator()(const T& t) const { return t == mk<T>(6) ? 1 : -1; }
    int operator()(std::vector<string>*) const { return 2; }
    int operator()(const std::chrono::seconds&) const { return 3; }
  };
  CK(nonstd::visit(Visit(), v) == 1, "variant visited");

  typedef nanostl::tuple<int, T, string> Tp;
  Tp t(1, mk<T>(2), "x"), u(t), z(nanostl::move(u)), e;
  e = z, u = nanostl::move(z);
  CK(t == u && t == e && !(t < u) && t <= u && !(t != u) && tao::get<1>(u) == mk<T>(2), "tuple");
  tao::get<1>(e) = mk<T>(3);
  CK(t < e && e > t && e >= t && t != e, "tuple compared");
  T a;
  string b;
  int i = 0;
  tao::tie(i, a, b) = e;
  CK(i == 1 && a == mk<T>(3) && b == "x" && tao::get<1>(tao::make_tuple(1, mk<T>(8))) == mk<T>(8), "tie, make_tuple");
  tao::tuple<T&, const T&> fwd = tao::forward_as_tuple(a, static_cast<const T&>(a));
  CK(&tao::get<0>(fwd) == &a && &tao::get<1>(fwd) == &a, "forward_as_tuple");
  CK(tao::get<3>(tao::tuple_cat(t, e)) == 1 && tao::get<4>(tao::tuple_cat(t, e)) == mk<T>(3), "tuple_cat");
  (void)r;
  ck::count("std: sum types and tuples");
}

// types of the standard library that can only be moved
template <class T> void movable(T (*get)(int), int (*value)(const T&)) {
  T a(get(1)), b(nanostl::move(a)), c(nanostl::move_if_noexcept(b)), d(nanostl::forward<T>(c));
  a = get(2);
  nanostl::swap(a, d);
  CK(value(a) == 1 && value(d) == 2, "swap of what can only be moved");
  T e[2] = {get(3), get(4)}, f[2] = {get(5), get(6)};
  nanostl::swap(e, f);
  CK(value(e[1]) == 6 && value(f[0]) == 3, "swap of arrays of what can only be moved");
  nanostl::unique_ptr<T> p(new T(nanostl::move(a))), q(nanostl::move(p));
  CK(value(*q) == 1, "unique_ptr to what can only be moved");
  nanostl::optional<T> o(nanostl::move(*q)), o2(nanostl::move(o));
  o = nanostl::move(o2), o2.emplace(get(7)), o = get(8);
  CK(value(*o) == 8 && value(*o2) == 7, "optional of what can only be moved");
  nanostl::variant<int, T> v(get(1)), w(nanostl::move(v));
  v = nanostl::move(w), w = get(2), v.template emplace<1>(get(3));
  CK(value(nonstd::get<1>(v)) == 3 && value(nonstd::get<T>(w)) == 2, "variant of what can only be moved");
  nanostl::tuple<int, T> t(1, get(4)), u(nanostl::move(t));
  t = nanostl::move(u);
  CK(value(tao::get<1>(t)) == 4 && value(tao::get<1>(tao::make_tuple(1, get(9)))) == 9, "tuple of what can only be moved");
  ck::count("std: move-only types");
}
std::unique_ptr<int> gp(int k) { return std::unique_ptr<int>(new int(k)); }
int vp(const std::unique_ptr<int>& p) { return *p; }
std::pair<int, std::unique_ptr<int> > gpp(int k) { return std::pair<int, std::unique_ptr<int> >(0, gp(k)); }
int vpp(const std::pair<int, std::unique_ptr<int> >& p) { return *p.second; }
std::vector<std::unique_ptr<int> > gv(int k) { std::vector<std::unique_ptr<int> > v; v.push_back(gp(k)); return v; }
int vv(const std::vector<std::unique_ptr<int> >& v) { return *v[0]; }

template <class T> void traits() {
#define SAME(name)                                                                                                                   \
  CK(nanostl::name<T>::value == std::name<T>::value, "%s of %s", #name, __PRETTY_FUNCTION__);                                     \
  ck::count("std: traits")
  SAME(is_class); SAME(is_copy_constructible); SAME(is_move_constructible); SAME(is_nothrow_move_constructible); SAME(is_default_constructible); SAME(is_nothrow_default_constructible);
  SAME(is_copy_assignable); SAME(is_move_assignable); SAME(is_nothrow_move_assignable); SAME(is_trivially_copy_constructible); SAME(is_const); SAME(is_integral); SAME(is_pointer);
  CK((nanostl::is_same<typename nanostl::decay<const T&>::type, T>::value && nanostl::is_convertible<T, T>::value == std::is_convertible<T, T>::value &&
      nanostl::is_constructible<T, int>::value == std::is_constructible<T, int>::value && nanostl::is_assignable<T&, const T&>::value == std::is_assignable<T&, const T&>::value),
     "traits of %s", __PRETTY_FUNCTION__);
}

template <class T> void sums_unless(ck::Rng& r, ...) { sums<T>(r); }
#if __cplusplus >= 201703L
// comparing an optional of a std::optional with a std::optional is ambiguous whatever the outer one is
template <class T> typename std::enable_if<std::is_same<T, std::optional<string> >::value>::type sums_unless(ck::Rng&, int) {}
#endif

template <class T> void all(ck::Rng& r) {
  traits<T>();
  containers<T>(r);
  maps<T>(r);
  pointers<T>();
  sums_unless<T>(r, 0);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P29");
  ck::Rng r = ck::rng();
  for (int i = 0, n = ck::st().thorough ? 3000 : 60; i < n; i++) {
    ck::begin_case("standard types, round %d", i);
    u64 h = r.s;
    all<string>(r);
    all<std::vector<int> >(r);
    all<std::pair<int, string> >(r);
    all<std::tuple<string, int> >(r);
    all<std::array<string, 2> >(r);
    all<std::list<string> >(r);
    all<std::deque<int> >(r);
    all<std::map<string, int> >(r);
    all<std::shared_ptr<int> >(r);
    all<std::chrono::milliseconds>(r);
    all<std::vector<string>::iterator>(r);
#if __cplusplus >= 201703L
    all<std::optional<string> >(r);
    all<std::variant<int, string> >(r);
    all<std::string_view>(r);
#endif
    bases<string>();
    bases<std::list<string> >();
    movable<std::unique_ptr<int> >(gp, vp);
    movable<std::pair<int, std::unique_ptr<int> > >(gpp, vpp);
    movable<std::vector<std::unique_ptr<int> > >(gv, vv);
    traits<std::thread>();
    traits<std::function<int(int)> >();
    ck::eval(h, true);
  }
  return ck::finish();
}
