// Mutexes under the deterministic scheduler: at most one thread at a time between lock and unlock, and everyone gets there.
#include "common.h"
#include "lin.h"
#include "libs_thread.h"

namespace {
void scenario(ck::Rng& r, uint64_t n) {
  const int threads = 2 + (int)r.below(4), mutexes = 1 + (int)r.below(3);
  thread_mutex_t m[3];
  memset(m, 0xa5, sizeof m);
  int owner[3] = {-1, -1, -1};
  long counter[3] = {0, 0, 0}, expect[3] = {0, 0, 0};
  // each step: a set of mutexes, locked in ascending order
  std::vector<std::vector<unsigned>> steps;
  for (int t = 0; t < threads; t++) {
    std::vector<unsigned> v;
    size_t len = 1 + r.below(6);
    for (size_t i = 0; i < len; i++) {
      unsigned set = 1 + (unsigned)r.below((1u << mutexes) - 1);
      for (int k = 0; k < mutexes; k++) expect[k] += set >> k & 1;
      v.push_back(set | (unsigned)r.below(2) << 8);
    }
    steps.push_back(v);
  }
  const bool again = r.chance(1, 4);
  // now and then the first critical section of a thread takes very long
  const int slow = r.chance(1, 300) ? (int)r.below((uint64_t)threads) : -1;
  sched::Options o = lin::options(r, r.chance(1, 2));
  ck::begin_case("schedule %llu, %d threads, %d mutexes, seed %llu", (unsigned long long)n, threads, mutexes, (unsigned long long)o.seed);
  auto work = [&](int t) {
    for (size_t i = 0; i < steps[(size_t)t].size(); i++) {
      unsigned set = steps[(size_t)t][i];
      for (int k = 0; k < mutexes; k++)
        if (set >> k & 1) {
          thread_mutex_lock(&m[k]);
          CK(owner[k] == -1, "thread %d locked mutex %d while thread %d holds it", t, k, owner[k]);
          owner[k] = t;
        }
      for (int k = 0; k < mutexes; k++)
        if (set >> k & 1) {
          long c = counter[k];
          sched::point();
          if (t == slow && i == 0) {
            for (int j = 0; j < 20000; j++) sched::point();
            ck::count("long critical sections");
          }
          if (set >> 8) sched::wait_until(sched::now() + 1000);
          CK(owner[k] == t, "thread %d holds mutex %d, but thread %d locked it too", t, k, owner[k]);
          counter[k] = c + 1;
        }
      for (int k = mutexes; k-- > 0;)
        if (set >> k & 1) {
          CK(owner[k] == t, "thread %d holds mutex %d, but thread %d locked it too", t, k, owner[k]);
          owner[k] = -1;
          thread_mutex_unlock(&m[k]);
        }
      ck::count("critical sections");
    }
  };
  sched::Result res = sched::run(o, [&]() {
    for (int k = 0; k < mutexes; k++) thread_mutex_init(&m[k]);
    if (again)
      for (int k = 0; k < mutexes; k++) {
        thread_mutex_lock(&m[k]);
        thread_mutex_unlock(&m[k]);
        thread_mutex_term(&m[k]);
        CK(!sched::live_in(&m[k], sizeof m[k]), "thread_mutex_term releases nothing");
        thread_mutex_init(&m[k]);
      }
    std::vector<int> ids;
    for (int t = 1; t < threads; t++) ids.push_back(sched::spawn([&work, t]() { work(t); }));
    work(0);
    for (size_t i = 0; i < ids.size(); i++) sched::join(ids[i]);
    for (int k = 0; k < mutexes; k++) {
      thread_mutex_term(&m[k]);
      CK(!sched::live_in(&m[k], sizeof m[k]), "thread_mutex_term releases nothing");
    }
  });
  CK(!sched::problem(), "%s", sched::problem());
  CK(res == sched::FINISHED, "the threads got stuck although mutexes are locked in order");
  for (int k = 0; k < mutexes; k++) CK(counter[k] == expect[k], "%ld increments under a mutex came to %ld", expect[k], counter[k]);
  ck::sample(ck::st().casename);
  ck::eval(sched::interleaving, true);
}
// The thread that finds that it is the last to use a mutex may terminate it at once, even if the others' calls of unlock have not returned.
void last_one_out(ck::Rng& r, uint64_t n) {
  const int threads = 2 + (int)r.below(3);
  thread_mutex_t m;
  memset(&m, 0xa5, sizeof m);
  int users = threads;
  sched::Options o = lin::options(r, r.chance(1, 2));
  ck::begin_case("last one out %llu, %d threads, seed %llu", (unsigned long long)n, threads, (unsigned long long)o.seed);
  auto work = [&]() {
    thread_mutex_lock(&m);
    const int left = --users;
    thread_mutex_unlock(&m);
    if (left) return;
    thread_mutex_term(&m);
    CK(!sched::live_in(&m, sizeof m), "thread_mutex_term releases nothing");
    memset(&m, 0x77, sizeof m);
  };
  sched::Result res = sched::run(o, [&]() {
    thread_mutex_init(&m);
    std::vector<int> ids;
    for (int t = 1; t < threads; t++) ids.push_back(sched::spawn([&work]() { work(); }));
    work();
    for (size_t i = 0; i < ids.size(); i++) sched::join(ids[i]);
  });
  CK(!sched::problem(), "after the last user terminated the mutex: %s", sched::problem());
  CK(res == sched::FINISHED, "the threads got stuck");
  CK(users == 0, "%d users are left", users);
  const unsigned char* b = (const unsigned char*)&m;
  for (size_t i = 0; i < sizeof m; i++) CK(b[i] == 0x77, "unlock() wrote to a mutex that the last user had terminated");
  ck::count("mutexes terminated by the last user");
  ck::eval(sched::interleaving, true);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P24");
  ck::Rng r = ck::rng();
  uint64_t n = ck::st().thorough ? 2000000 : 150000;
  for (uint64_t i = 0; i < n; i++) {
    scenario(r, i);
    if (i % 8 == 0) last_one_out(r, i);
  }
  lin::report_stats();
  return ck::finish();
}
