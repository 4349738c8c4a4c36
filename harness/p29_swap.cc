// Known finding of P29, one kind of composed object per CASE: its swap calls swap for each part with both nanostl's and (by argument-dependent lookup)
// std's generic function in sight, which is ambiguous for classes of namespace std that have no swap of their own.
#include <chrono>
#include <complex>
#include <string>
#include "nanooptional.h"
#include "nanotuple.h"
#include "nanoutility.h"
#include "nanovariant.h"

typedef std::chrono::milliseconds T;

int main() {
  T a(1), b(2);
#if CASE == 1
  T x[2] = {a, a}, y[2] = {b, b};
  nanostl::swap(x, y);
  return !(x[1] == b && y[0] == a);
#elif CASE == 2
  nanostl::optional<T> x(a), y(b);
  x.swap(y);
  return !(*x == b && *y == a);
#elif CASE == 3
  nanostl::variant<int, T> x(a), y(b);
  x.swap(y);
  return !(nonstd::get<1>(x) == b && nonstd::get<1>(y) == a);
#elif CASE == 4
  nanostl::tuple<int, T> x(1, a), y(2, b);
  x.swap(y);
  return !(tao::get<1>(x) == b && tao::get<1>(y) == a);
#endif
}
