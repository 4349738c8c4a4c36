// Which constructions, conversions and assignments of unique_ptr exist, against std::unique_ptr's: an ownership that is
// copied, taken from an lvalue or given to the wrong kind of pointer is one that a program must not be able to write.
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include "common.h"
#include "nanomemory.h"

namespace {
struct NF {
  template <class T>
  using DD = nanostl::default_delete<T>;
  template <class T, class D = DD<T>>
  using U = nanostl::unique_ptr<T, D>;
  typedef nanostl::nullptr_t Null;
};
struct SF {
  template <class T>
  using DD = std::default_delete<T>;
  template <class T, class D = DD<T>>
  using U = std::unique_ptr<T, D>;
  typedef decltype(nullptr) Null;
};
struct B {
  virtual ~B() {}
};
struct D : B {};
struct X {};
struct Del {
  Del() {}
  template <class T>
  void operator()(T* p) const {
    delete p;
  }
};
struct Del2 : Del {
  Del2() {}
  Del2(const Del&) {}
};
struct MoDel {
  MoDel() {}
  MoDel(MoDel&&) {}
  MoDel& operator=(MoDel&&) { return *this; }
  template <class T>
  void operator()(T* p) const {
    delete p;
  }
};
struct NoDef {
  explicit NoDef(int) {}
  template <class T>
  void operator()(T* p) const {
    delete p;
  }
};
typedef void (*Fn)(void*);
struct PtrDel {
  typedef short* pointer;
  void operator()(short*) const {}
};
std::vector<std::pair<std::string, std::string>>* rows;
template <class A, class X>
void cell(std::string n) {
  char b[64];
  snprintf(b, sizeof b, "%d %d %d", std::is_constructible<A, X>::value, std::is_convertible<X, A>::value, std::is_assignable<A&, X>::value);
  rows->push_back({n, b});
}
template <class A, class X>
void src(std::string n) {
  cell<A, X&>(n + "&");
  cell<A, const X&>(n + " const&");
  cell<A, X&&>(n + "&&");
}
template <class A, class P, class X>
void two(std::string n) {
  char b[64];
  snprintf(b, sizeof b, "%d %d %d", std::is_constructible<A, P, X&>::value, std::is_constructible<A, P, const X&>::value, std::is_constructible<A, P, X&&>::value);
  rows->push_back({n, b});
}
template <class F, class A>
void type(std::string n) {
#define S(...) src<A, __VA_ARGS__>(n + " <- " #__VA_ARGS__)
  S(typename F::template U<B>);
  S(typename F::template U<D>);
  S(typename F::template U<const B>);
  S(typename F::template U<X>);
  S(typename F::template U<int>);
  S(typename F::template U<D[]>);
  S(typename F::template U<B[]>);
  S(typename F::template U<const B[]>);
  S(typename F::template U<B, Del>);
  S(typename F::template U<D, Del>);
  S(typename F::template U<D, Del2>);
  S(typename F::template U<D, Del&>);
  S(typename F::template U<D, const Del&>);
  S(typename F::template U<D, MoDel>);
  S(typename F::template U<B, Fn>);
  S(typename F::template U<D[], Del>);
  S(typename F::template U<int, PtrDel>);
  S(int);
  // A pointer alone, where the deleter cannot be made without being given one: std leaves these constructors out, here
  // they are declared and do not compile.
  if (n.find("&") == std::string::npos && n != "<B, NoDef>" && n != "<B, Fn>") {
    S(B*);
    S(D*);
    S(const B*);
    S(X*);
    S(int*);
    S(decltype(nullptr));
    S(typename F::Null);
  }
#undef S
#define W(P, ...) two<A, P, __VA_ARGS__>(n + " <- " #P ", " #__VA_ARGS__)
  W(B*, Del);
  W(D*, Del);
  W(D*, Del2);
  W(B*, MoDel);
  W(B*, NoDef);
  W(B*, Fn);
  W(decltype(nullptr), Del);
  W(B*, typename F::template DD<B>);
  W(B*, typename F::template DD<D>);
  W(B*, int);
}
template <class F>
void table(std::vector<std::pair<std::string, std::string>>& o) {
  rows = &o;
#define T(...)                                                                                                                                                                  \
  {                                                                                                                                                                             \
    typedef typename F::template U<__VA_ARGS__> TT;                                                                                                                             \
    type<F, TT>("<" #__VA_ARGS__ ">");                                                                                                                                          \
    char b[200];                                                                                                                                                                \
    snprintf(b, sizeof b, "%d %d %d %d %d %d %d %zu", std::is_default_constructible<TT>::value, std::is_copy_constructible<TT>::value, std::is_move_constructible<TT>::value,   \
             std::is_copy_assignable<TT>::value, std::is_move_assignable<TT>::value, std::is_convertible<TT, bool>::value, std::is_constructible<bool, TT>::value, sizeof(TT)); \
    rows->push_back({"traits <" #__VA_ARGS__ ">", b});                                                                                                                          \
  }
  T(B);
  T(const B);
  T(D);
  T(int);
  T(B[]);
  T(const B[]);
  T(D[]);
  T(B, Del);
  T(B, Del2);
  T(B, Del&);
  T(B, MoDel);
  T(B, NoDef);
  T(B, Fn);
  T(B[], Del);
  T(int, PtrDel);
  T(D[], Del&);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P17");
  std::vector<std::pair<std::string, std::string>> a, b;
  table<NF>(a);
  table<SF>(b);
  CK(a.size() == b.size(), "tables");
  for (size_t i = 0; i < a.size(); i++) {
    ck::begin_case("unique_ptr%s", a[i].first.c_str());
    CK(a[i].second == b[i].second, "unique_ptr%s is [%s], std::unique_ptr [%s]: %s", a[i].first.c_str(), a[i].second.c_str(), b[i].second.c_str(),
       a[i].first[0] == 't' ? "default constructible, copy and move constructible, copy and move assignable, convertible to bool, explicitly, size"
                            : "constructible, convertible, assignable (with a deleter: constructible from an lvalue, a const one, an rvalue)");
    ck::eval(i, b[i].second.find('1') != std::string::npos);
  }
  ck::enumerated(a.size());
  ck::count("constructions and conversions of unique_ptr", a.size());
  return ck::finish();
}
