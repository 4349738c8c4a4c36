// Which conversions, assignments and constructions of optional exist, which constructor or assignment of the value they
// run and what comes out, for a table of value types and sources, against std::optional.
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "common.h"
#include "nanooptional.h"
#include "nanoutility.h"

namespace {
struct NF {
  template <class T>
  using O = nanostl::optional<T>;
  typedef nonstd::nullopt_t Null;
  static Null null() { return nonstd::nullopt; }
  static const char* name() { return "nanostl"; }
};
struct SF {
  template <class T>
  using O = std::optional<T>;
  typedef std::nullopt_t Null;
  static Null null() { return std::nullopt; }
  static const char* name() { return "std"; }
};

// what kind of thing something is made from
template <class F, class T>
struct IsO : std::false_type {};
template <class F, class T>
struct IsO<F, std::optional<T> > : std::is_same<F, SF> {};
template <class F, class T>
struct IsO<F, nonstd::optional<T> > : std::is_same<F, NF> {};

int content(int v) { return v; }
int content(long v) { return (int)v; }
int content(double v) { return (int)v; }
int content(bool v) { return v; }

// V: a value type that remembers how it was made. Each has `how` (1: int, 2: an optional, 3: something else) and `v`.
struct Seen {
  int how, v;
  Seen(int h = 0, int x = 0) : how(h), v(x) {}
};
template <class F> struct FromInt : Seen { FromInt(int x) : Seen(1, x) {} };
template <class F> struct ExplicitInt : Seen { explicit ExplicitInt(int x) : Seen(1, x) {} };
template <class F> struct NoAssign : Seen { NoAssign(int x) : Seen(1, x) {} NoAssign& operator=(int) = delete; NoAssign(const NoAssign&) = default; NoAssign& operator=(const NoAssign&) = default; };
template <class F> struct OnlyAssign : Seen { OnlyAssign() {} OnlyAssign& operator=(int x) { how = 1; v = x; return *this; } };
template <class F> struct FromOpt : Seen { FromOpt(typename F::template O<int> o) : Seen(2, o ? *o : -100) {} };
template <class F> struct FromOptOrInt : Seen {
  FromOptOrInt(const typename F::template O<int>& o) : Seen(2, o ? *o : -100) {}
  FromOptOrInt(int x) : Seen(1, x) {}
};
template <class F> struct FromLvalueOpt : Seen {
  FromLvalueOpt(typename F::template O<int>& o) : Seen(2, o ? *o : -100) {}
  FromLvalueOpt(int x) : Seen(1, x) {}
};
template <class F> struct FromRvalueOpt : Seen {
  FromRvalueOpt(typename F::template O<int>&& o) : Seen(2, o ? *o : -100) {}
  FromRvalueOpt(int x) : Seen(1, x) {}
};
template <class F> struct ExplicitOpt : Seen {
  explicit ExplicitOpt(const typename F::template O<int>& o) : Seen(2, o ? *o : -100) {}
  ExplicitOpt(int x) : Seen(1, x) {}
};
template <class F> struct AssignOpt : Seen {
  AssignOpt(int x) : Seen(1, x) {}
  AssignOpt& operator=(const typename F::template O<int>& o) { how = 2; v = o ? *o : -100; return *this; }
  AssignOpt& operator=(int x) { how = 1; v = x; return *this; }
  AssignOpt(const AssignOpt&) = default;
  AssignOpt& operator=(const AssignOpt&) = default;
};
template <class F> struct AssignLvalueOpt : Seen {
  AssignLvalueOpt(int x) : Seen(1, x) {}
  AssignLvalueOpt& operator=(typename F::template O<int>& o) { how = 2; v = o ? *o : -100; return *this; }
  AssignLvalueOpt& operator=(int x) { how = 1; v = x; return *this; }
  AssignLvalueOpt(const AssignLvalueOpt&) = default;
  AssignLvalueOpt& operator=(const AssignLvalueOpt&) = default;
};
template <class F> struct Any : Seen {  // from everything
  Any() {}
  template <class U, class = typename std::enable_if<!std::is_base_of<Any, typename std::decay<U>::type>::value>::type>
  Any(U&&) : Seen(IsO<F, typename std::decay<U>::type>::value ? 2 : 3, 7) {}
};
template <class F> struct ExplicitAny : Seen {
  template <class U, class = typename std::enable_if<!std::is_base_of<ExplicitAny, typename std::decay<U>::type>::value>::type>
  explicit ExplicitAny(U&&) : Seen(IsO<F, typename std::decay<U>::type>::value ? 2 : 3, 7) {}
};
template <class F> struct Listy : Seen {  // {} and () differ
  explicit Listy(int x) : Seen(1, x) {}
  Listy(std::initializer_list<int> l) : Seen(4, (int)l.size()) {}
};
template <class F> struct LvalueInt : Seen { LvalueInt(int& x) : Seen(1, x) {} };
template <class F> struct RvalueInt : Seen { RvalueInt(int&& x) : Seen(1, x) {} };
template <class F> struct MixedInt : Seen { MixedInt(int& x) : Seen(1, x) {} explicit MixedInt(const int& x) : Seen(5, x) {} MixedInt(int&& x) : Seen(6, x) {} };
template <class F> struct MixedOpt : Seen {  // deleted for const
  MixedOpt(typename F::template O<int>& o) : Seen(2, o ? *o : -100) {}
  MixedOpt(const typename F::template O<int>& o) = delete;
  MixedOpt(int x) : Seen(1, x) {}
};
template <class F> struct ConstOpt : Seen {
  ConstOpt(const typename F::template O<int>& o) : Seen(2, o ? *o : -100) {}
  ConstOpt(typename F::template O<int>& o) = delete;
  ConstOpt(typename F::template O<int>&& o) = delete;
  ConstOpt(int x) : Seen(1, x) {}
};
template <class F> struct AssignConstOpt : Seen {
  AssignConstOpt(int x) : Seen(1, x) {}
  AssignConstOpt& operator=(const typename F::template O<int>& o) { how = 2; v = o ? *o : -100; return *this; }
  AssignConstOpt& operator=(typename F::template O<int>& o) = delete;
  AssignConstOpt& operator=(typename F::template O<int>&& o) = delete;
  AssignConstOpt& operator=(int x) { how = 1; v = x; return *this; }
  AssignConstOpt(const AssignConstOpt&) = default;
  AssignConstOpt& operator=(const AssignConstOpt&) = default;
};
template <class F> struct ToInt { operator int() const { return 5; } };
template <class F> struct ToOpt { operator typename F::template O<int>() const { return typename F::template O<int>(6); } };
template <class F> struct ToBoth { operator int() const { return 5; } };
struct B { int b; };
struct D : B {};
B gb[2]; D gd[2];

int how(const Seen& s) { return s.how; }
template <class T, class = typename std::enable_if<!std::is_base_of<Seen, T>::value>::type> int how(const T&) { return 9; }
int val(const Seen& s) { return s.v; }
int val(const int& v) { return v; }
int val(const long& v) { return (int)v; }
int val(const short& v) { return v; }
int val(const bool& v) { return v; }
int val(const double& v) { return (int)(v * 4); }
int val(const B* const& p) { return p ? 1 : 0; }
int val(const std::string& s) { return (int)s.size(); }
template <class F> int val(const ToInt<F>&) { return 5; }
template <class T> int val(const std::optional<T>& o) { return o ? 1000 + val(*o) : 2000; }
template <class T> int val(const nonstd::optional<T>& o) { return o ? 1000 + val(*o) : 2000; }

// the values of a source
template <class F, class X> struct Src;
template <class F> struct Src<F, int> { static int get(int i) { return 3 + i; } };
template <class F> struct Src<F, long> { static long get(int i) { return 4 + i; } };
template <class F> struct Src<F, short> { static short get(int i) { return (short)(5 + i); } };
template <class F> struct Src<F, bool> { static bool get(int i) { return i & 1; } };
template <class F> struct Src<F, double> { static double get(int i) { return 1.25 + i; } };
template <class F> struct Src<F, D*> { static D* get(int i) { return i ? gd : 0; } };
template <class F> struct Src<F, B*> { static B* get(int i) { return i ? gb : 0; } };
template <class F> struct Src<F, const char*> { static const char* get(int i) { return i ? "abc" : "de"; } };
template <class F> struct Src<F, std::string> { static std::string get(int i) { return i ? "abcd" : "f"; } };
template <class F> struct Src<F, ToInt<F> > { static ToInt<F> get(int) { return ToInt<F>(); } };
template <class F> struct Src<F, ToOpt<F> > { static ToOpt<F> get(int) { return ToOpt<F>(); } };
template <class F> struct Src<F, FromInt<F> > { static FromInt<F> get(int i) { return FromInt<F>(i + 8); } };
template <class F> struct Src<F, Any<F> > { static Any<F> get(int i) { return Any<F>(i + 8); } };
template <class F> struct Src<F, std::nullopt_t> { static std::nullopt_t get(int) { return std::nullopt; } };
template <class F> struct Src<F, nonstd::nullopt_t> { static nonstd::nullopt_t get(int) { return nonstd::nullopt; } };
template <class F, class T> struct Src<F, std::optional<T> > { static std::optional<T> get(int i) { return i ? std::optional<T>(Src<F, T>::get(i)) : std::optional<T>(); } };
template <class F, class T> struct Src<F, nonstd::optional<T> > { static nonstd::optional<T> get(int i) { return i ? nonstd::optional<T>(Src<F, T>::get(i)) : nonstd::optional<T>(); } };

struct Row {
  std::string what;
  std::vector<int> facts;
};
std::vector<Row>* rows;

template <class T, class X>
using Con = std::is_constructible<T, X>;
template <class OT, class T>
void result(std::vector<int>& f, const OT& o) {
  f.push_back(o.has_value());
  f.push_back(o.has_value() ? how(*o) : -1);
  f.push_back(o.has_value() ? val(*o) : -1);
}
template <class OT, class T, class X, class F, bool yes> struct Construct { static void run(std::vector<int>&) {} };
template <class OT, class T, class X, class F> struct Construct<OT, T, X, F, true> {
  static void run(std::vector<int>& f) {
    for (int i = 0; i < 2; i++) {
      typename std::decay<X>::type x(Src<F, typename std::decay<X>::type>::get(i));
      OT o(static_cast<X>(x));
      result<OT, T>(f, o);
    }
  }
};
template <class OT, class T, class X, class F, bool yes> struct Convert { static void run(std::vector<int>&) {} };
template <class OT, class T, class X, class F> struct Convert<OT, T, X, F, true> {
  static OT pass(OT o) { return o; }
  static void run(std::vector<int>& f) {
    for (int i = 0; i < 2; i++) {
      typename std::decay<X>::type x(Src<F, typename std::decay<X>::type>::get(i));
      result<OT, T>(f, pass(static_cast<X>(x)));
    }
  }
};
template <class OT, class T, class X, class F, bool yes> struct Assign { static void run(std::vector<int>&) {} };
template <class OT, class T, class X, class F> struct Assign<OT, T, X, F, true> {
  static void run(std::vector<int>& f) {
    for (int i = 0; i < 2; i++) {
      typename std::decay<X>::type x(Src<F, typename std::decay<X>::type>::get(i));
      OT o;
      OT& r = o = static_cast<X>(x);
      CK(&r == &o, "assigning returned something else");
      result<OT, T>(f, o);
      typename std::decay<X>::type y(Src<F, typename std::decay<X>::type>::get(1 - i));
      o = static_cast<X>(y);
      result<OT, T>(f, o);
    }
  }
};

template <class F, class T, class X>
void cell(const char* tn, const char* xn, const char* cat) {
  typedef typename F::template O<T> OT;
  Row r;
  r.what = std::string("optional<") + tn + "> and " + xn + cat;
  enum { c = std::is_constructible<OT, X>::value, v = std::is_convertible<X, OT>::value, a = std::is_assignable<OT&, X>::value };
  r.facts.push_back(c);
  r.facts.push_back(v);
  r.facts.push_back(a);
  Construct<OT, T, X, F, c>::run(r.facts);
  Convert<OT, T, X, F, v>::run(r.facts);
  Assign<OT, T, X, F, a>::run(r.facts);
  rows->push_back(r);
}
template <class F, class T, class X>
void source(const char* tn, const char* xn) {
  cell<F, T, X&>(tn, xn, "&");
  cell<F, T, const X&>(tn, xn, " const&");
  cell<F, T, X&&>(tn, xn, "&&");
}
template <class F, class T>
void type(const char* tn) {
#define S(...) source<F, T, __VA_ARGS__>(tn, #__VA_ARGS__)
#define S1(...) cell<F, T, __VA_ARGS__&&>(tn, #__VA_ARGS__, "&&")
  S1(long); S1(bool); S1(double); S1(D*); S1(const char*); S1(std::string); S1(typename F::Null);
  S(int); S(ToInt<F>); S(ToOpt<F>); S1(FromInt<F>); S1(Any<F>);
  S(typename F::template O<int>); S1(typename F::template O<long>); S1(typename F::template O<bool>); S1(typename F::template O<D*>);
  S1(typename F::template O<const char*>); S1(typename F::template O<std::string>); S(typename F::template O<ToInt<F> >); S1(typename F::template O<FromInt<F> >);
  S(typename F::template O<Any<F> >); S(typename F::template O<typename F::template O<int> >);
#undef S1
#undef S
}
template <class F>
void table(std::vector<Row>& out) {
  rows = &out;
#define T(...) type<F, __VA_ARGS__>(#__VA_ARGS__)
#if PART == 0
  T(int); T(double); T(B*); T(std::string); T(FromInt<F>); T(ExplicitInt<F>); T(NoAssign<F>); T(OnlyAssign<F>);
#elif PART == 1
  T(bool); T(FromOpt<F>); T(FromOptOrInt<F>); T(FromLvalueOpt<F>); T(FromRvalueOpt<F>); T(ExplicitOpt<F>); T(AssignOpt<F>); T(AssignLvalueOpt<F>);
#else
  T(Any<F>); T(ExplicitAny<F>); T(Listy<F>); T(LvalueInt<F>); T(RvalueInt<F>); T(MixedInt<F>); T(MixedOpt<F>); T(ConstOpt<F>); T(AssignConstOpt<F>); T(typename F::template O<int>);
#endif
#undef T
}
// o = {} empties, whatever the value type
template <class T>
void braces(T v) {
  nanostl::optional<T> o(v);
  o = {};
  CK(!o.has_value(), "o = {} left a value");
  nanostl::optional<T> p = {};
  CK(!p.has_value(), "an optional made from {} has a value");
  o = v;
  CK(o.has_value() && val(*o) == val(v), "assigning a value");
}
std::string show(const std::vector<int>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + std::to_string(v[i]);
  return s;
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P18");
  {
    std::vector<Row> mine, theirs;
    ck::begin_case("table of conversions");
    table<NF>(mine);
    table<SF>(theirs);
    CK(mine.size() == theirs.size(), "tables");
    for (size_t i = 0; i < mine.size(); i++) {
      ck::begin_case("%s", mine[i].what.c_str());
      CK(mine[i].facts == theirs[i].facts, "%s: constructible, convertible, assignable, what comes out: [%s] instead of std::optional's [%s]", mine[i].what.c_str(),
         show(mine[i].facts).c_str(), show(theirs[i].facts).c_str());
      ck::eval(i * 4 + PART, theirs[i].facts[0] || theirs[i].facts[2]);
    }
    ck::enumerated(mine.size());
    ck::count("pairs of a value type and a source", mine.size());
    ck::begin_case("o = {}");
    braces<int>(3);
    braces<double>(0.5);
    braces<bool>(true);
    braces<B*>(gb);
    braces<std::string>("abc");
    braces<FromInt<NF> >(FromInt<NF>(4));
    braces<OnlyAssign<NF> >(OnlyAssign<NF>());
    braces<Any<NF> >(Any<NF>(1));
    ck::eval(1000000, true);
  }
  return ck::finish();
}
