// The member types of containers, iterators, allocators and function objects, against those of the standard library's.
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "common.h"
#include "nanoallocator.h"
#include "nanofunctional.h"
#include "nanoiterator.h"
#include "nanomap.h"
#include "nanomemory.h"
#include "nanostring.h"
#include "nanoutility.h"
#include "nanovalarray.h"
#include "nanovector.h"

namespace {
unsigned long nfacts = 0;
std::string current;
void b(const char* what, bool ok) {
  nfacts++;
  if (!ok) ck::fail("%s: %s differs from the standard library's", current.c_str(), what);
}
template <class A, class B> struct same : std::is_same<A, B> {};
// size and difference types may be other integers, of the same sign and no smaller
template <class A, class B> struct counts { static const bool value = std::is_integral<A>::value && std::is_signed<A>::value == std::is_signed<B>::value && sizeof(A) >= sizeof(B); };
#define SAME(x) b(#x, same<typename N::x, typename S::x>::value);

template <class N, class S> void refs() { SAME(value_type) SAME(reference) SAME(const_reference) SAME(pointer) SAME(const_pointer) }
// what an iterator and what the range it is of give, whatever classes the iterators are
template <class N, class S> void gives() {
  b("*iterator", same<decltype(*std::declval<typename N::iterator&>()), decltype(*std::declval<typename S::iterator&>())>::value);
  b("operator->", same<decltype(&*std::declval<typename N::iterator&>()), decltype(&*std::declval<typename S::iterator&>())>::value);
}
template <class N, class S> void elements() {
  b("[]", same<decltype(std::declval<N&>()[0]), decltype(std::declval<S&>()[0])>::value);
  b("const []", same<decltype(std::declval<const N&>()[0]), decltype(std::declval<const S&>()[0])>::value);
  b("at", same<decltype(std::declval<N&>().at(0)), decltype(std::declval<S&>().at(0))>::value);
  b("const at", same<decltype(std::declval<const N&>().at(0)), decltype(std::declval<const S&>().at(0))>::value);
}
template <class N, class S> void sizes() {
  b("size", counts<decltype(std::declval<const N&>().size()), typename S::size_type>::value);
  b("empty", same<decltype(std::declval<const N&>().empty()), bool>::value);
}
template <class N, class S> void traits() {
  typedef nanostl::iterator_traits<typename N::iterator> I;
  typedef nanostl::iterator_traits<typename N::const_iterator> C;
  typedef std::iterator_traits<typename S::iterator> J;
  typedef std::iterator_traits<typename S::const_iterator> D;
  b("iterator_traits<iterator>", same<typename I::value_type, typename J::value_type>::value && same<typename I::reference, typename J::reference>::value && same<typename I::pointer, typename J::pointer>::value);
  b("iterator_traits<const_iterator>", same<typename C::value_type, typename D::value_type>::value && same<typename C::reference, typename D::reference>::value && same<typename C::pointer, typename D::pointer>::value);
  b("const_iterator", std::is_convertible<typename N::iterator, typename N::const_iterator>::value && !std::is_convertible<typename N::const_iterator, typename N::iterator>::value);
}
template <class T> void pointers(const char* name) {
  current = std::string("iterator_traits<") + name + ">";
  typedef nanostl::iterator_traits<T> N;
  typedef std::iterator_traits<T> S;
  SAME(value_type) SAME(reference) SAME(pointer)
  b("difference_type", counts<typename N::difference_type, typename S::difference_type>::value);
  b("iterator_category", same<typename N::iterator_category, nanostl::random_access_iterator_tag>::value);
  b("distance", same<decltype(nanostl::distance(std::declval<T>(), std::declval<T>())), typename N::difference_type>::value);
}
// an iterator class with members of its own
template <class Cat, class V, class R, class P> struct Iter {
  typedef signed char difference_type;
  typedef V value_type;
  typedef P pointer;
  typedef R reference;
  typedef Cat iterator_category;
};
template <class T> void iterclass(const char* name) {
  current = std::string("iterator_traits<") + name + ">";
  typedef nanostl::iterator_traits<T> N;
  typedef T S;
  SAME(value_type) SAME(reference) SAME(pointer) SAME(difference_type) SAME(iterator_category)
}
template <class T> void of(const char* name) {
  {
    current = std::string("vector<") + name + ">";
    typedef nanostl::vector<T> N;
    typedef std::vector<T> S;
    refs<N, S>(); gives<N, S>(); elements<N, S>(); sizes<N, S>(); traits<N, S>();
    b("data", same<decltype(std::declval<N&>().data()), decltype(std::declval<S&>().data())>::value);
    b("allocator_type", same<typename N::allocator_type, nanostl::allocator<T> >::value);
    b("erase", same<decltype(std::declval<N&>().erase(std::declval<N&>().begin())), typename N::iterator>::value);
    b("assignment", same<decltype(std::declval<N&>() = std::declval<const N&>()), N&>::value);
  }
  {
    current = std::string("valarray<") + name + ">";
    typedef nanostl::valarray<T> N;
    typedef std::vector<T> S;
    refs<N, S>(); gives<N, S>(); sizes<N, S>(); traits<N, S>();
    b("[]", same<decltype(std::declval<N&>()[0]), T&>::value);
    b("const []", same<decltype(std::declval<const N&>()[0]), const T&>::value);
    b("assignment", same<decltype(std::declval<N&>() = std::declval<const N&>()), N&>::value);
  }
  {
    current = std::string("allocator<") + name + ">";
    typedef nanostl::allocator<T> N;
    b("members", same<typename N::value_type, T>::value && same<typename N::pointer, T*>::value && same<typename N::const_pointer, const T*>::value &&
                 same<typename N::reference, T&>::value && same<typename N::const_reference, const T&>::value);
    b("allocate", same<decltype(std::declval<N&>().allocate(1)), T*>::value);
  }
  {
    current = std::string("unique_ptr<") + name + ">";
    typedef nanostl::unique_ptr<T> N;
    typedef std::unique_ptr<T> S;
    SAME(pointer) SAME(element_type)
    b("get, release, *, ->", same<decltype(std::declval<const N&>().get()), T*>::value && same<decltype(std::declval<N&>().release()), T*>::value &&
                             same<decltype(*std::declval<const N&>()), T&>::value && same<decltype(std::declval<const N&>().operator->()), T*>::value);
    b("get_deleter", same<decltype(std::declval<N&>().get_deleter()), typename N::deleter_type&>::value && same<decltype(std::declval<const N&>().get_deleter()), const typename N::deleter_type&>::value);
  }
  {
    current = std::string("less<") + name + ">";
    b("operator()", same<decltype(std::declval<const nanostl::less<T>&>()(std::declval<const T&>(), std::declval<const T&>())), bool>::value);
  }
  pointers<T*>((std::string(name) + "*").c_str());
  pointers<const T*>((std::string("const ") + name + "*").c_str());
}
template <class K, class T> void maps(const char* name) {
  current = std::string("map<") + name + ">";
  typedef nanostl::map<K, T> N;
  typedef std::map<K, T> S;
  b("key_type", same<typename N::key_type, K>::value);
  b("value_type", same<typename N::value_type, nanostl::pair<const K, T> >::value);
  b("reference", same<typename N::reference, typename N::value_type&>::value && same<typename N::const_reference, const typename N::value_type&>::value);
  b("pointer", same<typename N::pointer, typename N::value_type*>::value && same<typename N::const_pointer, const typename N::value_type*>::value);
  b("*iterator", same<decltype(*std::declval<typename N::iterator&>()), typename N::reference>::value && same<decltype(std::declval<typename N::iterator&>().operator->()), typename N::pointer>::value);
  b("++", same<decltype(++std::declval<typename N::iterator&>()), typename N::iterator&>::value);
  b("[]", same<decltype(std::declval<N&>()[std::declval<const K&>()]), T&>::value);
  b("insert", same<decltype(std::declval<N&>().insert(std::declval<const typename N::value_type&>())), nanostl::pair<typename N::iterator, bool> >::value);
  b("begin, end", same<decltype(std::declval<N&>().begin()), typename N::iterator>::value && same<decltype(std::declval<N&>().end()), typename N::iterator>::value);
  b("empty", same<decltype(std::declval<const N&>().empty()), bool>::value);
  b("assignment", same<decltype(std::declval<N&>() = std::declval<const N&>()), N&>::value);
  (void)sizeof(S);
}
template <class A, class B> void pairs(const char* name) {
  current = std::string("pair<") + name + ">";
  typedef nanostl::pair<A, B> N;
  typedef std::pair<A, B> S;
  b("first", same<decltype(std::declval<N>().first), decltype(std::declval<S>().first)>::value);
  b("second", same<decltype(std::declval<N>().second), decltype(std::declval<S>().second)>::value);
  b("make_pair", same<decltype(nanostl::make_pair(std::declval<const A&>(), std::declval<const B&>())), N>::value);
  b("==", same<decltype(std::declval<const N&>() == std::declval<const N&>()), bool>::value);
  b("<", same<decltype(std::declval<const N&>() < std::declval<const N&>()), bool>::value);
  b("default construction", std::is_default_constructible<N>::value && std::is_copy_constructible<N>::value && std::is_copy_assignable<N>::value);
  N n;
  S s;
  b("value-initialized members", n.first == s.first && n.second == s.second);
}
template <class C> void strings(const char* name) {
  current = std::string("basic_string<") + name + ">";
  typedef nanostl::basic_string<C> N;
  typedef std::vector<C> S;
  refs<N, S>(); gives<N, S>(); elements<N, S>(); sizes<N, S>(); traits<N, S>();
  b("length", counts<decltype(std::declval<const N&>().length()), size_t>::value);
  b("c_str", same<decltype(std::declval<const N&>().c_str()), const C*>::value);
  b("+", same<decltype(std::declval<const N&>() + std::declval<const N&>()), N>::value);
  b("+=", same<decltype(std::declval<N&>() += std::declval<const N&>()), N&>::value);
  b("assignment", same<decltype(std::declval<N&>() = std::declval<const N&>()), N&>::value);
  b("comparisons", same<decltype(std::declval<const N&>() == std::declval<const N&>()), bool>::value && same<decltype(std::declval<const N&>() < std::declval<const N&>()), bool>::value &&
                   same<decltype(std::declval<const N&>().compare(std::declval<const N&>())), int>::value);
}
struct Pod { int a; bool operator<(const Pod& o) const { return a < o.a; } bool operator==(const Pod& o) const { return a == o.a; } };
enum Enum { E0, E1 };
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P15");
#define OF(...) of<__VA_ARGS__>(#__VA_ARGS__);
  OF(char) OF(signed char) OF(unsigned char) OF(wchar_t) OF(char16_t) OF(char32_t) OF(short) OF(unsigned short) OF(int) OF(unsigned) OF(long) OF(unsigned long) OF(long long) OF(unsigned long long)
  OF(float) OF(double) OF(long double) OF(Pod) OF(Enum) OF(int*) OF(const int*) OF(void*) OF(const char*) OF(std::string) OF(nanostl::string) OF(nanostl::vector<int>) OF(std::nullptr_t)
#define IT(...) pointers<__VA_ARGS__>(#__VA_ARGS__);
  IT(int**) IT(int* const*) IT(const int* const*) IT(volatile int*) IT(const char**)
#define IC(...) iterclass<__VA_ARGS__>(#__VA_ARGS__);
  IC(Iter<nanostl::input_iterator_tag, int, int, void>) IC(Iter<nanostl::forward_iterator_tag, int, const int&, const int*>) IC(Iter<nanostl::random_access_iterator_tag, long, long&, long*>)
  current = "iterator tags";
  b("forward from input", std::is_base_of<nanostl::input_iterator_tag, nanostl::forward_iterator_tag>::value);
  b("bidirectional from forward", std::is_base_of<nanostl::forward_iterator_tag, nanostl::bidirectional_iterator_tag>::value);
  b("random access from bidirectional", std::is_base_of<nanostl::bidirectional_iterator_tag, nanostl::random_access_iterator_tag>::value);
  b("output apart", !std::is_base_of<nanostl::output_iterator_tag, nanostl::random_access_iterator_tag>::value && !std::is_base_of<nanostl::input_iterator_tag, nanostl::output_iterator_tag>::value);
#define MP(...) maps<__VA_ARGS__>(#__VA_ARGS__);
  MP(int, int) MP(char, std::string) MP(std::string, int) MP(nanostl::string, nanostl::vector<int>) MP(Pod, double) MP(int*, int*) MP(Enum, bool)
#define PR(...) pairs<__VA_ARGS__>(#__VA_ARGS__);
  PR(int, int) PR(char, double) PR(bool, int*) PR(std::string, std::string) PR(Pod, float) PR(long long, unsigned char) PR(Enum, long)
#define ST(...) strings<__VA_ARGS__>(#__VA_ARGS__);
  ST(char) ST(signed char) ST(unsigned char) ST(char16_t) ST(char32_t) ST(wchar_t)
  constexpr int three = 3;
  static_assert(nanostl::move(3) == 3 && nanostl::forward<const int&>(three) == 3 && nanostl::move_if_noexcept(three) == 3, "constants");
  static_assert(nanostl::true_type() && !nanostl::false_type() && nanostl::integral_constant<int, 3>() == 3, "constants");
  ck::enumerated(nfacts);
  ck::count("facts compared", nfacts);
  ck::sample("vector<int>::const_reference, iterator_traits<const int*>::value_type, what [] of a const string gives");
  return ck::finish();
}
