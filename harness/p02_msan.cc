// The jobs of jobs.h under MemorySanitizer: none may branch on a value that was never written, or come to one.
// The standard library here is not instrumented, so this file keeps away from what it does in its own binary.
#include "common.h"
#include "jobs.h"
#include <sanitizer/msan_interface.h>

int main(int argc, char** argv) {
  u64 seed = 1, shard = 0;
  bool thorough = false;
  const char* out = 0;
  for (int i = 1; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], 0, 10);
    if (!strcmp(argv[i], "--shard")) shard = strtoull(argv[i + 1], 0, 10);
    if (!strcmp(argv[i], "--tier")) thorough = !strcmp(argv[i + 1], "thorough");
    if (!strcmp(argv[i], "--out")) out = argv[i + 1];
  }
  static u64 hashes[400000], counts[NJOBS];
  size_t nh = 0;
  u64 evals = 0, zero = 0;
  Rng r(seed * 1000003 + shard * 7919 + 5);
  for (int round = 0, n = thorough ? 60000 : 1500; round < n; round++) {
    u64 cs = r.next();
    Common c(cs);
    for (int i = 0; i < 12; i++) {
      int job = (int)r.below(NJOBS);
      u64 s = r.next();
      Rng q(s);
      // what freed memory and the stack hold does not count as written
      char junk[512];
      __msan_poison(junk, sizeof junk);
      u64 h = JOBS[job](q, c);
      if (__msan_test_shadow(&h, sizeof h) >= 0) {
        fprintf(stderr, "ORACLE: the result of job '%s' (seed %llu, shared objects %llu) depends on an uninitialized value\n", NAMES[job], (unsigned long long)s, (unsigned long long)cs);
        __msan_check_mem_is_initialized(&h, sizeof h);
        return 3;
      }
      zero += h == 0;
      counts[job]++;
      evals++;
      if (nh < sizeof hashes / sizeof *hashes) hashes[nh++] = h ^ s;
    }
  }
  if (!out) return 0;
  FILE* f = fopen(out, "w");
  if (!f) return 2;
  fprintf(f, "{\"evaluations\": %llu, \"enumerated\": 0, \"counters\": {", (unsigned long long)evals);
  for (int i = 0; i < NJOBS; i++) fprintf(f, "\"msan: %s\": %llu, ", NAMES[i], (unsigned long long)counts[i]);
  fprintf(f, "\"msan: digests that are 0\": %llu}, \"maxima\": {}, \"samples\": []}\n", (unsigned long long)zero);
  fclose(f);
  char name[4096];
  snprintf(name, sizeof name, "%s.hashes", out);
  f = fopen(name, "wb");
  if (!f) return 2;
  fwrite(hashes, 8, nh, f);
  fclose(f);
  return 0;
}
