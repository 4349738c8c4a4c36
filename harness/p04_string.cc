#include "containers.h"
using namespace ck;
int main(int argc, char** argv) {
  init(argc, argv, "P04");
  Rng r = rng(4);
  const unsigned cases = st().thorough ? 60000 : 2500;
  for (unsigned i = 0; i < cases; i++) {
    u64 s = r.next();
    Rng c(s);
    unsigned n = 20 + (unsigned)c.below(100);
    if ((long_case() = i % 60 == 59)) n = 30;
    begin_case("case %u: %u operations, rng %llu", i, n, (unsigned long long)s);
    eval(run_string(c, n));
    sample(last_ops());
  }
  return finish();
}
