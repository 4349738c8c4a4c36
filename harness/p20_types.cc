// tuple: the types that get, tuple_element, tuple_cat, make_tuple, tie and forward_as_tuple give, and what a tuple can be
// made from, against std::tuple's.
#include <string>
#include <tuple>
#include <type_traits>
#include "common.h"
#include "nanofunctional.h"
#include "nanotuple.h"

namespace {
struct B {
  virtual ~B() {}
};
struct D : B {};
struct Own {
  Own() {}
  Own(Own&&) {}
  Own& operator=(Own&&) { return *this; }
};
struct Fixed {
  Fixed() {}
  Fixed(const Fixed&) = delete;
};
struct Ex {
  Ex() {}
  explicit Ex(int) {}
};
struct NoDef {
  explicit NoDef(int*) {}
};
struct Empty {};

// what std calls a type
template <class T>
struct Std {
  typedef T type;
};
template <class T>
struct Std<const T> {
  typedef const typename Std<T>::type type;
};
template <class T>
struct Std<T&> {
  typedef typename Std<T>::type& type;
};
template <class T>
struct Std<T&&> {
  typedef typename Std<T>::type&& type;
};
template <class... T>
struct Std<tao::tuple<T...>> {
  typedef std::tuple<typename Std<T>::type...> type;
};

uint64_t cells;
template <class N, class S>
void same(const char* what, const char* of) {
  ck::begin_case("%s of %s", what, of);
  CK((std::is_same<typename Std<N>::type, S>::value), "%s of %s has another type than std::tuple's", what, of);
  cells++;
  ck::eval(cells, true);
}
void same(bool n, bool s, const char* what, const char* of) {
  ck::begin_case("%s: %s", of, what);
  CK(n == s, "%s: %s is %d, for std::tuple it is %d", of, what, n, s);
  cells++;
  ck::eval(cells, s);
}

template <class N, class S, size_t I>
void element(const char* of) {
  same<typename tao::tuple_element<I, N>::type, typename std::tuple_element<I, S>::type>("tuple_element", of);
  same<typename tao::tuple_element<I, const N>::type, typename std::tuple_element<I, const S>::type>("tuple_element of const", of);
  same<decltype(tao::get<I>(std::declval<N&>())), decltype(std::get<I>(std::declval<S&>()))>("get of an lvalue", of);
  same<decltype(tao::get<I>(std::declval<const N&>())), decltype(std::get<I>(std::declval<const S&>()))>("get of a const lvalue", of);
  same<decltype(tao::get<I>(std::declval<N&&>())), decltype(std::get<I>(std::declval<S&&>()))>("get of an rvalue", of);
  same<decltype(tao::get<I>(std::declval<const N&&>())), decltype(std::get<I>(std::declval<const S&&>()))>("get of a const rvalue", of);
}
template <class N, class S, size_t... I>
void elements(const char* of, std::integer_sequence<size_t, I...>) {
  int a[] = {0, (element<N, S, I>(of), 0)...};
  (void)a;
}
template <class N, class S, class T>
void by_type(const char* of) {
  same<decltype(tao::get<T>(std::declval<N&>())), decltype(std::get<T>(std::declval<S&>()))>("get by type of an lvalue", of);
  same<decltype(tao::get<T>(std::declval<const N&>())), decltype(std::get<T>(std::declval<const S&>()))>("get by type of a const lvalue", of);
  same<decltype(tao::get<T>(std::declval<N&&>())), decltype(std::get<T>(std::declval<S&&>()))>("get by type of an rvalue", of);
}
template <class N, class S>
void traits(const char* of) {
#define TRAIT(t) same(std::t<N>::value, std::t<S>::value, #t, of)
  TRAIT(is_default_constructible);
  TRAIT(is_copy_constructible);
  TRAIT(is_move_constructible);
#undef TRAIT
  same(tao::tuple_size<N>::value == std::tuple_size<S>::value, true, "tuple_size", of);
  same(tao::tuple_size<const volatile N>::value == std::tuple_size<S>::value, true, "tuple_size of const volatile", of);
}
template <class N, class S, class... A>
void from(const char* of) {
  same(std::is_constructible<N, A...>::value, std::is_constructible<S, typename Std<A>::type...>::value, "is_constructible", of);
}
template <class... T>
struct Ty {
  typedef tao::tuple<T...> N;
  typedef typename Std<N>::type S;
};
// tuples as constants
#if __cplusplus >= 201402L
struct Add {
  template <class A, class B> constexpr int operator()(A a, B b) const { return (int)(a + b); }
};
void constants() {
  constexpr tao::tuple<int, char, long> t(3, 'a', 5L), u(3, 'a', 6L), v(t);
  constexpr tao::tuple<long, long, long> w(t);
  constexpr tao::tuple<int, Empty, bool> d{};
  static_assert(tao::get<0>(t) == 3 && tao::get<1>(t) == 'a' && tao::get<2>(u) == 6 && tao::get<2>(v) == 5 && tao::get<1>(w) == 'a' && tao::get<0>(d) == 0 && !tao::get<2>(d), "get");
  static_assert(t == v && t != u && t < u && t <= u && u > t && u >= t && !(u < t) && !(t > u) && t <= v && t >= v && t == w, "comparison");
  constexpr auto m = tao::make_tuple(1, 2.5, 'z');
  static_assert(tao::get<0>(m) == 1 && tao::get<1>(m) == 2.5 && tao::get<2>(m) == 'z', "make_tuple");
  constexpr auto c = tao::tuple_cat(t, m, tao::tuple<>(), tao::make_tuple(7u));
  static_assert(tao::tuple_size<decltype(c)>::value == 7 && tao::get<0>(c) == 3 && tao::get<2>(c) == 5 && tao::get<3>(c) == 1 && tao::get<5>(c) == 'z' && tao::get<6>(c) == 7, "tuple_cat");
  static_assert(tao::get<1>(tao::forward_as_tuple(1, 2, 3)) == 2, "forward_as_tuple");
  ck::count("tuples used as constants", 7);
}
#endif
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P20");
#define EL(...)                                                                                                 \
  elements<Ty<__VA_ARGS__>::N, Ty<__VA_ARGS__>::S>("<" #__VA_ARGS__ ">", std::make_index_sequence<std::tuple_size<Ty<__VA_ARGS__>::S>::value>()); \
  traits<Ty<__VA_ARGS__>::N, Ty<__VA_ARGS__>::S>("<" #__VA_ARGS__ ">")
  EL(int);
  EL(int, int&, const int&, int&&, const int, const int&&);
  EL(Own, int);
  EL(Own&, Own&&, const Own&);
  EL(Fixed);
  EL(Fixed&, int);
  EL(Empty, Empty, D, B);
  EL(tao::tuple<int, char>, int*, const char* const);
  EL(Ex, NoDef);
  EL(Ex, int);
  EL(void*, B*, D*, int D::*, void (*)(int), void (&)(int), int (&)[3]);
  EL(char, short, int, long, long long, float, double, long double, bool, unsigned, void*);
  by_type<Ty<int, char, int*>::N, Ty<int, char, int*>::S, char>("<int, char, int*>");
  by_type<Ty<int&, const char, int>::N, Ty<int&, const char, int>::S, int&>("<int&, const char, int>");
  by_type<Ty<int&, const char, int>::N, Ty<int&, const char, int>::S, const char>("<int&, const char, int>");
  by_type<Ty<int&&, Own>::N, Ty<int&&, Own>::S, int&&>("<int&&, Own>");
  by_type<Ty<int&&, Own>::N, Ty<int&&, Own>::S, Own>("<int&&, Own>");

  // tuple_cat of up to three, each an lvalue, a const one or an rvalue
#define Q3(F, T, ...) F(T&, __VA_ARGS__) F(const T&, __VA_ARGS__) F(T&&, __VA_ARGS__)
#define NV(...) std::declval<__VA_ARGS__>()
#define CAT1(Q, dummy) same<decltype(tao::tuple_cat(NV(Q))), decltype(std::tuple_cat(NV(Std<Q>::type)))>("tuple_cat", #Q);
#define CAT2(Q, P) same<decltype(tao::tuple_cat(NV(Q), NV(P))), decltype(std::tuple_cat(NV(Std<Q>::type), NV(Std<P>::type)))>("tuple_cat", #Q ", " #P);
#define CAT3(Q, P) same<decltype(tao::tuple_cat(NV(P), NV(Q), NV(Q), NV(P))), decltype(std::tuple_cat(NV(Std<P>::type), NV(Std<Q>::type), NV(Std<Q>::type), NV(Std<P>::type)))>("tuple_cat", #P ", " #Q ", " #Q ", " #P);
  typedef tao::tuple<> T0;
  typedef tao::tuple<int, const char, int&, const double&> T1;
  typedef tao::tuple<int&&, B*, tao::tuple<int>> T2;
  typedef tao::tuple<Empty, std::string> T3;
  Q3(CAT1, T0, 0)
  Q3(CAT1, T1, 0)
  Q3(CAT1, T3, 0)
  Q3(CAT2, T0, T0)
  Q3(CAT2, T0, T1&)
  Q3(CAT2, T1, T3)
  Q3(CAT2, T1, const T3&)
  Q3(CAT2, T1, T2&&)
  Q3(CAT2, T3, const T1&)
  Q3(CAT3, T1, T3&)
  Q3(CAT3, T3, T0)
  Q3(CAT3, T1, const T1&)

#define MAKE(...)                                                                                                                        \
  same<decltype(tao::make_tuple(__VA_ARGS__)), decltype(std::make_tuple(__VA_ARGS__))>("make_tuple", #__VA_ARGS__);                     \
  same<decltype(tao::forward_as_tuple(__VA_ARGS__)), decltype(std::forward_as_tuple(__VA_ARGS__))>("forward_as_tuple", #__VA_ARGS__)
  int i = 0;
  const int c = 0;
  int arr[3] = {0, 0, 0};
  Own own;
  MAKE(i);
  MAKE(c, i, 3);
  MAKE(arr, "text");
  MAKE(static_cast<Own&&>(own), static_cast<const int&&>(c));
  MAKE(&arr, &i, nullptr, main);
  MAKE(true, 'c', 1.0f, 2L, 3ull);
  same<decltype(tao::tie(i, c, arr, own)), decltype(std::tie(i, c, arr, own))>("tie", "i, c, arr, own");

#define LIST(...) __VA_ARGS__
#define FROM(T, ...) from<Ty<LIST T>::N, Ty<LIST T>::S, __VA_ARGS__>(#T " from " #__VA_ARGS__)
  FROM((int), int);
  FROM((int), int&);
  FROM((int), short);
  FROM((int), int*);
  FROM((int&), int&);
  FROM((int&), int);
  FROM((int&), const int&);
  FROM((const int&), int);
  FROM((const int&), const int&);
  FROM((int&&), int);
  FROM((int&&), int&);
  FROM((Own), Own);
  FROM((Own), Own&);
  FROM((Own), const Own&);
  FROM((Fixed), Fixed);
  FROM((Fixed&), Fixed&);
  FROM((Ex), int);
  FROM((Ex), long);
  FROM((Ex), int*);
  FROM((NoDef), int*);
  FROM((NoDef), std::nullptr_t);
  FROM((B*), D*);
  FROM((D*), B*);
  FROM((int, int), int);
  FROM((int, int), int, int);
  FROM((int, int), int, int, int);
  FROM((int, Own), int, Own);
  FROM((int, Own), int, Own&);
  FROM((B*, int), D*, short&);
  FROM((D*, int), B*, short&);
  FROM((int, long), tao::tuple<short, char>);
  FROM((int, long), tao::tuple<short, char>&);
  FROM((int, long), const tao::tuple<short, char>&);
  FROM((int, long), tao::tuple<short, int*>);
  FROM((int, long), tao::tuple<short>);
  FROM((int, long), tao::tuple<short, char, char>);
  FROM((int, Own), tao::tuple<int, Own>);
  FROM((int, Own), tao::tuple<int, Own>&);
  FROM((long, Own), tao::tuple<int, Own>);
  FROM((long, Own), tao::tuple<int, Own>&);
  FROM((long, Own), const tao::tuple<int, Own>&);
  FROM((B*, B*), tao::tuple<D*, B*>);
  FROM((D*, B*), tao::tuple<B*, B*>);
  FROM((Ex, Ex), tao::tuple<int, int>);
  FROM((NoDef, Ex), tao::tuple<int*, int>);
  FROM((NoDef, Ex), tao::tuple<int, int>);
  FROM((int&, int), tao::tuple<int&, int>);
  FROM((int&, int), tao::tuple<int, int>);
  FROM((const int&, long), const tao::tuple<int&, int>&);
  FROM((tao::tuple<int>, int), tao::tuple<int>, int);
  FROM((std::string, int), const char*, int);
  FROM((std::string, int), tao::tuple<const char*, int>);
  FROM((int), tao::tuple<int>&);
  FROM((int), const tao::tuple<long>&);
  constants();
  ck::enumerated(cells);
  ck::count("types and constructions compared", cells);
  return ck::finish();
}
