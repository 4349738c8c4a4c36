#include "containers.h"
using namespace ck;
int main(int argc, char** argv) {
  init(argc, argv, "P06");
  Rng r = rng(6);
  const unsigned cases = st().thorough ? 20000 : 800;
  for (unsigned i = 0; i < cases; i++) {
    u64 s = r.next();
    Rng c(s);
    unsigned n = 20 + (unsigned)c.below(150), t = i % 7;
    begin_case("case %u: map type %u, %u operations, rng %llu", i, t, n, (unsigned long long)s);
    switch (t) {
      case 0: eval(run_map<int, int>(c, n, true)); break;
      case 1: eval(run_map<Tracked, Tracked>(c, n, true)); break;
      case 2: eval(run_map<nanostl::string, int>(c, n, false)); break;
      case 3: eval(run_map<long long, nanostl::string>(c, n, true)); break;
      case 4: eval(run_map<double, Pod>(c, n, true)); break;
      case 5: eval(run_map<int, nanostl::vector<int> >(c, n, true)); break;
      case 6: eval(run_map<Weak, Tracked>(c, n, true)); break;
    }
    sample(last_ops());
  }
  for (unsigned i = 0; i < (st().thorough ? 40u : 4u); i++) {
    u64 s = r.next();
    Rng c(s);
    int n = 20000 + (int)c.below(st().thorough ? 200000 : 60000);
    begin_case("map of many keys %u: %d insertions, rng %llu", i, n, (unsigned long long)s);
    eval(map_many(c, n, i % 4));
  }
  return finish();
}
