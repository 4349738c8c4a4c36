#include "containers.h"
#include "nanomath.h"
using namespace ck;
int main(int argc, char** argv) {
  init(argc, argv, "P12");
  Rng r = rng(12);
  const unsigned cases = st().thorough ? 30000 : 1500;
  for (unsigned i = 0; i < cases; i++) {
    u64 s = r.next();
    Rng c(s);
    unsigned n = 20 + (unsigned)c.below(120), t = i % 6;
    if ((long_case() = i % 40 == 39)) {
      n = 30;
      t = i / 40 % 6;
    }
    begin_case("case %u: valarray<type %u>, %u operations, rng %llu", i, t, n, (unsigned long long)s);
    switch (t) {
      case 0: eval(run_seq<nanostl::valarray<int>, int>(c, n)); break;
      case 1: eval(run_seq<nanostl::valarray<unsigned char>, unsigned char>(c, n)); break;
      case 2: eval(run_seq<nanostl::valarray<double>, double>(c, n)); break;
      case 3: eval(run_seq<nanostl::valarray<Tracked>, Tracked>(c, n)); break;
      case 4: eval(run_seq<nanostl::valarray<Pod>, Pod>(c, n)); break;
      case 5: {
        // sin of a valarray is sin of its elements
        size_t k = new_size(c);
        nanostl::valarray<float> a((nanostl::size_type)k);
        for (size_t j = 0; j < k; j++) {
          CK(a[j] == 0.0f, "valarray(%zu) element %zu is not 0", k, j);
          a[j] = (float)((c.below(2000001) / 1e6 - 1.0) * (c.chance(1, 2) ? 6.28 : 8000));
        }
        nanostl::valarray<float> before(a), b = nanostl::sin(a);
        CK(b.size() == k && a.size() == k, "sin(valarray) changes the size");
        u64 h = k;
        for (size_t j = 0; j < k; j++) {
          float w = nanostl::sin(a[j]);
          CK(memcmp(&w, &b[j], 4) == 0, "sin(valarray)[%zu] is not sin(%a)", j, a[j]);
          CK(memcmp(&a[j], &before[j], 4) == 0, "sin(valarray) changes its argument");
          h = mix(h, hashmem(&a[j], 4));
        }
        op("sin of %zu elements", k);
        count("sin(valarray) elements", k);
        eval(h, k >= 2);
      }
    }
    sample(last_ops());
  }
  return finish();
}
