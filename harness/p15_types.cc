// numeric_limits, type traits and ratio against the standard library's, over a large set of types.
#include <limits>
#include <ratio>
#include <type_traits>
#include "common.h"
#include "nanolimits.h"
#include "nanoratio.h"
#include "nanotype_traits.h"

namespace {
struct Empty {};
struct Pod { int a; char b; };
struct Base { virtual ~Base() {} };
struct Derived : Base {};
struct Abstract { virtual void f() = 0; virtual ~Abstract() {} };
struct Final final {};
struct NoDefault { NoDefault(int) {} };
struct NoCopy { NoCopy() {} NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; };
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly&&) noexcept {} MoveOnly& operator=(MoveOnly&&) noexcept { return *this; } };
struct ThrowingMove { ThrowingMove() {} ThrowingMove(const ThrowingMove&) {} ThrowingMove(ThrowingMove&&) {} ThrowingMove& operator=(ThrowingMove&&) { return *this; } ThrowingMove& operator=(const ThrowingMove&) { return *this; } };
struct NoDtor { NoDtor(); ~NoDtor() = delete; };
struct FromInt { FromInt(int) {} };
struct Three { Three(int, double, const char*) {} Three(int&, int) {} explicit Three(Pod) {} };
struct NoDtor2 { ~NoDtor2() noexcept(false) {} };
struct ToInt { operator int() const { return 0; } };
struct ExplicitInt { explicit ExplicitInt(int) {} };
union Uni { int a; float b; };
enum Enum { E1 };
enum class EnumC : short { E1 };
struct Incompletely { int x[3]; static int s; void m(); };
typedef int Func(int);
typedef void Func0();
typedef int Incompletely::*MemObj;
typedef void (Incompletely::*MemFun)();
typedef int (Incompletely::*MemFunC)(int) const;

unsigned long nfacts = 0;
std::string current;
void b(const char* trait, bool got, bool want) {
  nfacts++;
  if (got != want) ck::fail("%s<%s> is %d instead of %d", trait, current.c_str(), got, want);
}
template <class A, class B>
void t(const char* trait) {
  nfacts++;
  if (!std::is_same<A, B>::value) ck::fail("%s<%s> is another type", trait, current.c_str());
}

#define BOOL(x) b(#x, nanostl::x<T>::value, std::x<T>::value);
#define TYPE(x) t<typename nanostl::x<T>::type, typename std::x<T>::type>(#x);

template <class T>
void any(const char* name) {  // for any type at all
  current = name;
  BOOL(is_void) BOOL(is_array) BOOL(is_integral) BOOL(is_floating_point) BOOL(is_arithmetic) BOOL(is_signed) BOOL(is_unsigned)
  BOOL(is_lvalue_reference) BOOL(is_rvalue_reference) BOOL(is_reference) BOOL(is_const) BOOL(is_function) BOOL(is_union) BOOL(is_class)
  BOOL(is_pointer) BOOL(is_member_pointer) BOOL(is_member_function_pointer) BOOL(is_enum) BOOL(is_scalar) BOOL(is_object)
  BOOL(is_empty) BOOL(is_abstract) BOOL(is_destructible)
  TYPE(remove_const) TYPE(remove_volatile) TYPE(remove_cv) TYPE(remove_extent) TYPE(remove_all_extents) TYPE(remove_reference)
  TYPE(add_pointer) TYPE(decay) TYPE(add_lvalue_reference) TYPE(add_rvalue_reference) TYPE(add_const)
  b("is_same to itself", nanostl::is_same<T, T>::value, true);
  b("is_same to its pointer", nanostl::is_same<T, typename std::add_pointer<T>::type>::value, false);
  t<typename nanostl::conditional<true, T, int**>::type, T>("conditional true");
  t<typename nanostl::conditional<false, T, int**>::type, int**>("conditional false");
  t<typename nanostl::enable_if<true, T>::type, T>("enable_if");
  t<nanostl::remove_reference_t<T>, typename std::remove_reference<T>::type>("remove_reference_t");
}
template <class T>
void object(const char* name) {  // complete object types
  any<T>(name);
  current = name;
  BOOL(is_default_constructible) BOOL(is_copy_constructible) BOOL(is_move_constructible) BOOL(is_copy_assignable) BOOL(is_move_assignable)
  BOOL(is_nothrow_copy_constructible) BOOL(is_nothrow_move_constructible) BOOL(is_nothrow_copy_assignable) BOOL(is_nothrow_move_assignable)
  BOOL(is_trivially_default_constructible) BOOL(is_trivially_copy_constructible) BOOL(is_trivially_move_constructible)
  b("is_final", nanostl::is_final<T>::value, __is_final(T));
}
template <class T>
void cv(const char* n) {
  std::string s = n;
  object<T>(n);
  object<const T>((s + " const").c_str());
  object<volatile T>((s + " volatile").c_str());
  object<const volatile T>((s + " const volatile").c_str());
  any<T&>((s + "&").c_str());
  any<const T&>((s + " const&").c_str());
  any<T&&>((s + "&&").c_str());
  any<T*>((s + "*").c_str());
  any<const T*>((s + " const*").c_str());
  any<T* const>((s + "* const").c_str());
  any<T* volatile>((s + "* volatile").c_str());
  any<T**>((s + "**").c_str());
  any<T*&>((s + "*&").c_str());
}
template <class T>
void arrays(const char* n) {
  std::string s = n;
  typedef T A3[3];
  typedef T A34[3][4];
  typedef T AU[];
  current = s + " arrays";
  b("is_default_constructible of T[3]", nanostl::is_default_constructible<A3>::value, std::is_default_constructible<A3>::value);
  b("is_default_constructible of T[3][4]", nanostl::is_default_constructible<A34>::value, std::is_default_constructible<A34>::value);
  b("is_default_constructible of T[]", nanostl::is_default_constructible<AU>::value, std::is_default_constructible<AU>::value);
  b("is_default_constructible of const T[3]", nanostl::is_default_constructible<const A3>::value, std::is_default_constructible<const A3>::value);
  b("is_copy_constructible of T[3]", nanostl::is_copy_constructible<A3>::value, std::is_copy_constructible<A3>::value);
  b("is_copy_assignable of T[3]", nanostl::is_copy_assignable<A3>::value, std::is_copy_assignable<A3>::value);
  b("is_move_assignable of T[3]", nanostl::is_move_assignable<A3>::value, std::is_move_assignable<A3>::value);
  any<T[]>((s + "[]").c_str());
  any<T[3]>((s + "[3]").c_str());
  any<const T[3]>((s + " const[3]").c_str());
  any<T[3][4]>((s + "[3][4]").c_str());
  any<T[][4]>((s + "[][4]").c_str());
  any<T (&)[3]>((s + "(&)[3]").c_str());
  any<T (*)[3]>((s + "(*)[3]").c_str());
}
template <class A, class B>
void two(const char* x, const char* y) {
  current = std::string(x) + ", " + y;
  b("is_same", nanostl::is_same<A, B>::value, std::is_same<A, B>::value);
  b("is_convertible", nanostl::is_convertible<A, B>::value, std::is_convertible<A, B>::value);
  b("is_constructible", nanostl::is_constructible<A, B>::value, std::is_constructible<A, B>::value);
  b("is_assignable", nanostl::is_assignable<A&, B>::value, std::is_assignable<A&, B>::value);
}
template <class T, class... As>
void makes(const char* name) {
  current = name;
  b("is_constructible", nanostl::is_constructible<T, As...>::value, std::is_constructible<T, As...>::value);
}
template <class A, class B>
void arith(const char* x, const char* y) {
  two<A, B>(x, y);
  current = std::string(x) + ", " + y;
  t<typename nanostl::common_type<A, B>::type, typename std::common_type<A, B>::type>("common_type");
  t<typename nanostl::common_type<A, B, int>::type, typename std::common_type<A, B, int>::type>("common_type");
}
template <class T>
void limits(const char* name, bool fp) {
  current = name;
  typedef nanostl::numeric_limits<T> N;
  typedef std::numeric_limits<T> S;
  b("numeric_limits::min", N::min() == S::min(), true);
  b("numeric_limits::max", N::max() == S::max(), true);
  b("numeric_limits::epsilon", N::epsilon() == S::epsilon(), true);
  const int& d = N::digits10;  // a reference: the member needs a definition
  if (d != S::digits10) ck::fail("numeric_limits<%s>::digits10 is %d", name, d);
  b("numeric_limits is exact: max + 1 wraps or is larger", (T)(N::max()) == (T)(S::max()), true);
  (void)fp;
}
// calls f over a stack full of one byte: what f does not set shows
__attribute__((noinline)) void soil(int byte) {
  volatile unsigned char junk[2048];
  for (unsigned i = 0; i < sizeof junk; i++) junk[i] = (unsigned char)byte;
}
template <class T>
__attribute__((noinline)) T deeper(T (*f)()) {  // where soil had its bytes, and not its counter
  volatile unsigned char pad[128];
  pad[64] = 0;
  return f();
}
template <class T, class U>
__attribute__((noinline)) U bits_over(T (*f)(), int byte) {
  soil(byte);
  T v = deeper(f);
  U u;
  memcpy(&u, &v, sizeof u);
  return u;
}
template <class T, class U>
void always(const char* what, T (*f)()) {
  U u = bits_over<T, U>(f, 0);
  for (int i = 1; i < 256; i++) b(what, bits_over<T, U>(f, i) == u, true);
}
template <class T, class U>
void fplimits(const char* name, U inf, U qmask, U expmask, U man) {
  current = name;
  typedef nanostl::numeric_limits<T> N;
  typedef std::numeric_limits<T> S;
  T v[5] = {N::infinity(), N::quiet_NaN(), N::denorm_min(), S::denorm_min(), 0};
  U u[4];
  memcpy(u, v, sizeof u);
  b("infinity", u[0] == inf, true);
  b("quiet_NaN is a quiet NaN", (u[1] & expmask) == expmask && (u[1] & qmask) != 0, true);
  b("denorm_min", u[2] == u[3], true);
  always<T, U>("infinity is the same every time", &N::infinity);
  always<T, U>("quiet_NaN is the same every time", &N::quiet_NaN);
  always<T, U>("signaling_NaN is the same every time", &N::signaling_NaN);
  always<T, U>("denorm_min is the same every time", &N::denorm_min);
  T sn = N::signaling_NaN();
  U su;
  memcpy(&su, &sn, sizeof su);
  b("signaling_NaN is a NaN", (su & expmask) == expmask && (su & man) != 0, true);
  b("signaling_NaN is not quiet", (su & qmask) == 0, true);
}
void same(const nanostl::intmax_t& member, long long v) { b("a member of ratio", member == v, true); }  // a reference: it needs a definition
template <nanostl::intmax_t A, nanostl::intmax_t B>
void rat() {
  typedef nanostl::ratio<A, B> N;
  typedef std::ratio<A, B> S;
  const long long nn = N::num, nd = N::den;
  same(N::num, nn);
  same(N::den, nd);
  nfacts += 3;
  if (nn != S::num || nd != S::den) ck::fail("ratio<%lld, %lld> is %lld/%lld", (long long)A, (long long)B, nn, nd);
  const long long tn = N::type::num, td = N::type::den;
  if (tn != nn || td != nd) ck::fail("ratio<%lld, %lld>::type is %lld/%lld", (long long)A, (long long)B, tn, td);
}
template <int A, int B, bool>
struct Rats { static void go() { rat<A, B>(); rat<A * 1000000007LL, B * 998244353LL>(); rat<A * 1000000LL, B * 1000LL>(); } };
template <int A, int B>
struct Rats<A, B, false> { static void go() {} };
template <int A, int B, int BE>
struct RatRow { static void go() { Rats<A, B, B != 0>::go(); RatRow<A, B + 1, BE>::go(); } };
template <int A, int BE>
struct RatRow<A, BE, BE> { static void go() {} };
template <int A, int AE>
struct RatGrid { static void go() { RatRow<A, -12, 13>::go(); RatGrid<A + 1, AE>::go(); } };
template <int AE>
struct RatGrid<AE, AE> { static void go() {} };
template <class N, class S>
void si(const char* n) {
  const long long a = N::num, b2 = N::den;
  nfacts += 2;
  if (a != S::num || b2 != S::den) ck::fail("%s is %lld/%lld", n, a, b2);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P15");
#define CV(...) cv<__VA_ARGS__>(#__VA_ARGS__);
  CV(bool) CV(char) CV(signed char) CV(unsigned char) CV(wchar_t) CV(char16_t) CV(char32_t) CV(short) CV(unsigned short) CV(int) CV(unsigned)
  CV(long) CV(unsigned long) CV(long long) CV(unsigned long long) CV(float) CV(double) CV(long double)
  CV(Empty) CV(Pod) CV(Base) CV(Derived) CV(NoDefault) CV(NoCopy) CV(MoveOnly) CV(ThrowingMove) CV(FromInt) CV(ToInt) CV(ExplicitInt)
  CV(Enum) CV(EnumC) CV(MemObj) CV(MemFun) CV(MemFunC) CV(int*) CV(void*) CV(Func*) CV(Func0*) CV(std::string) CV(Uni) CV(std::nullptr_t) CV(Three) CV(NoDtor2)
#define ANY(...) any<__VA_ARGS__>(#__VA_ARGS__);
  ANY(void) ANY(const void) ANY(volatile void) ANY(const volatile void) ANY(Func) ANY(Func0) ANY(Func&) ANY(Func&&) ANY(int(...)) ANY(void(int, ...))
  ANY(void*) ANY(const void*) ANY(Abstract) ANY(const Abstract) ANY(NoDtor)
  ANY(Abstract*) ANY(Abstract&)
#define ARR(...) arrays<__VA_ARGS__>(#__VA_ARGS__);
  ARR(int) ARR(char) ARR(Pod) ARR(int*) ARR(double) ARR(Enum) ARR(Base) ARR(NoDefault) ARR(MoveOnly) ARR(NoCopy) ARR(Uni)
#define A1(x, y) arith<x, y>(#x, #y);
#define AR(x) A1(x, bool) A1(x, char) A1(x, signed char) A1(x, unsigned char) A1(x, short) A1(x, unsigned short) A1(x, int) A1(x, unsigned) A1(x, long) \
    A1(x, unsigned long) A1(x, long long) A1(x, unsigned long long) A1(x, float) A1(x, double) A1(x, long double)
  AR(bool) AR(char) AR(signed char) AR(unsigned char) AR(short) AR(unsigned short) AR(int) AR(unsigned) AR(long) AR(unsigned long) AR(long long) AR(unsigned long long) AR(float) AR(double) AR(long double)
#define T1(x, y) two<x, y>(#x, #y);
#define TW(x) T1(x, int) T1(x, double) T1(x, int*) T1(x, const int*) T1(x, void*) T1(x, Pod) T1(x, FromInt) T1(x, ToInt) T1(x, ExplicitInt) T1(x, Base*) T1(x, Derived*) \
    T1(x, Enum) T1(x, EnumC) T1(x, MoveOnly) T1(x, NoCopy) T1(x, const char*) T1(x, std::string) T1(x, NoDefault) T1(x, std::nullptr_t)
  TW(int) TW(double) TW(int*) TW(const int*) TW(void*) TW(Pod) TW(FromInt) TW(ToInt) TW(ExplicitInt) TW(Base*) TW(Derived*) TW(Enum) TW(EnumC) TW(MoveOnly) TW(NoCopy)
  TW(std::string) TW(NoDefault)
#define MK(...) makes<__VA_ARGS__>(#__VA_ARGS__);
  MK(Three) MK(Three, int) MK(Three, int, int) MK(Three, int&, int) MK(Three, int, double, const char*) MK(Three, int, double, char*) MK(Three, int, double, int*) MK(Three, int, int, int, int)
  MK(Three, Pod) MK(Three, const Pod&) MK(Three, Three) MK(Three, const Three&) MK(Three, int&, EnumC) MK(std::string) MK(std::string, const char*, int) MK(std::string, int, char) MK(std::string, int*, int*)
  MK(int) MK(int, int) MK(int, int, int) MK(int&) MK(int&, int&) MK(int&, int) MK(const int&, int) MK(int&&, int) MK(int&&, int&) MK(int&, int&, int&) MK(void) MK(void, void) MK(void, int) MK(int, void) MK(int&, void)
  MK(MoveOnly, MoveOnly&&) MK(MoveOnly, MoveOnly&) MK(NoCopy, NoCopy&) MK(Abstract) MK(Abstract*, Abstract*) MK(Base&, Derived&) MK(Derived&, Base&) MK(Base&&, Derived) MK(const Base&, Derived) MK(Base, Derived)
  MK(int*, std::nullptr_t) MK(bool, std::nullptr_t) MK(std::nullptr_t, int*) MK(MemFun, std::nullptr_t) MK(Func) MK(Func*, Func&) MK(Func&, Func&) MK(Func&, Func*) MK(Enum, int) MK(int, Enum) MK(int, EnumC)
  limits<bool>("bool", false);
  limits<char>("char", false);
  limits<unsigned char>("unsigned char", false);
  limits<short>("short", false);
  limits<unsigned short>("unsigned short", false);
  limits<int>("int", false);
  limits<unsigned>("unsigned", false);
  limits<long long>("long long", false);
  limits<unsigned long long>("unsigned long long", false);
  limits<float>("float", true);
  limits<double>("double", true);
  fplimits<float, uint32_t>("float", 0x7f800000u, 0x400000u, 0x7f800000u, 0x7fffffu);
  fplimits<double, uint64_t>("double", 0x7ffull << 52, 1ull << 51, 0x7ffull << 52, 0xfffffffffffffull);
  RatGrid<-15, 16>::go();
  rat<9223372036854775807LL, 3>();
  rat<9223372036854775807LL, 9223372036854775807LL>();
  rat<-9223372036854775807LL, 7>();
  rat<7, -9223372036854775807LL>();
  rat<1, 9223372036854775807LL>();
  rat<0, -9223372036854775807LL>();
  rat<4611686018427387904LL, -6>();
  rat<1000000000000000000LL, 1000000000000000000LL>();
  rat<123456789012345678LL, 98765432109876543LL>();
#define SI(x) si<nanostl::x, std::x>(#x);
  SI(atto) SI(femto) SI(pico) SI(nano) SI(micro) SI(milli) SI(centi) SI(deci) SI(deca) SI(hecto) SI(kilo) SI(mega) SI(giga) SI(tera) SI(peta) SI(exa)
  ck::enumerated(nfacts);
  ck::count("facts compared", nfacts);
  ck::sample("is_convertible<Derived*, Base*>, decay<int const[3]>, common_type<short, unsigned>, numeric_limits<float>::denorm_min(), ratio<-12, 8>");
  return ck::finish();
}
