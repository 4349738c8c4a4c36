// Threads that work on objects of their own, and read common constant ones, must neither race (ThreadSanitizer) nor come to
// other results than they do alone.
#include "common.h"
#include <atomic>
#include <thread>
#include "jobs.h"

#ifndef SPEED
#define SPEED 1
#endif

namespace {
std::atomic<int> gate;
struct Task {
  int job;
  u64 seed, want, got;
};
void run(std::vector<Task>* t, const Common* c) {
  gate.fetch_sub(1, std::memory_order_relaxed);
  while (gate.load(std::memory_order_relaxed) > 0)
    std::this_thread::yield();
  for (size_t i = 0; i < t->size(); i++) {
    Rng r((*t)[i].seed);
    (*t)[i].got = JOBS[(*t)[i].job](r, *c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P21");
  Rng r(ck::st().seed * 1000003 + ck::st().shard);
  int rounds = (ck::st().thorough ? 60000 : 1200) * SPEED;
  for (int round = 0; round < rounds; round++) {
    Common c(r.next());
    // all threads at the same kind of work, at two kinds, or at anything
    int kinds[3], nk = 1 + (int)r.below(3), per = r.chance(1, 4) ? 1 : 1 + (int)r.below(12);
    for (int k = 0; k < nk; k++) kinds[k] = (int)r.below(NJOBS);
    int nt = 2 + (int)r.below(4);
    std::vector<std::vector<Task> > plan((size_t)nt);
    u64 h = 0;
    bool seen[NJOBS] = {};
    for (int t = 0; t < nt; t++)
      for (int i = 0; i < per; i++) {
        Task k = {nk == 3 ? (int)r.below(NJOBS) : kinds[r.below((u64)nk)], r.next(), 0, 0};
        if (r.chance(1, 6) && t) k.seed = plan[0][0].seed, k.job = plan[0][0].job;  // the very same values
        h = ck::mix(ck::mix(h, (u64)k.job), k.seed);
        seen[k.job] = true;
        plan[(size_t)t].push_back(k);
      }
    ck::begin_case("round %d: %d threads, %d jobs each", round, nt, per);
    // half of the rounds learn the right results only afterwards: the first execution of something is the concurrent one
    bool before = r.chance(1, 2);
    for (int pass = 0; pass < 2; pass++) {
      if (before == (pass == 0)) {
        for (int t = 0; t < nt; t++)
          for (size_t i = 0; i < plan[(size_t)t].size(); i++) {
            Task& k = plan[(size_t)t][i];
            Rng q(k.seed);
            k.want = JOBS[k.job](q, c);
          }
      } else {
        gate.store(nt);
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; t++) ts.push_back(std::thread(run, &plan[(size_t)t], &c));
        for (int t = 0; t < nt; t++) ts[(size_t)t].join();
      }
    }
    for (int t = 0; t < nt; t++)
      for (size_t i = 0; i < plan[(size_t)t].size(); i++) {
        Task& k = plan[(size_t)t][i];
        CK(k.want == k.got, "job '%s' of thread %d has another result next to other threads than alone", NAMES[k.job], t);
      }
    int n = 0;
    for (int k = 0; k < NJOBS; k++) {
      n += seen[k];
      if (seen[k]) ck::count(NAMES[k]);
    }
    ck::count("threads", (u64)nt);
    ck::eval(h, nt * per >= 4);
    char b[200];
    snprintf(b, sizeof b, "%d threads, %d jobs each, %d kinds (%s, ...)", nt, per, n, NAMES[plan[0][0].job]);
    ck::sample(b);
  }
  return ck::finish();
}
