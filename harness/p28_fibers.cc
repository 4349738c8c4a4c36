// Thread lifecycle and thread-local storage under the deterministic scheduler, with thread creation failing now and then.
#include "common.h"
#include "lin.h"
#include "libs_thread.h"

namespace {
const int MAXT = 12;
struct Job {
  int id;
  int code;
  int style;  // 0: return, 1: thread_exit, 2: thread_exit from a nested call, 3: joins its child first
  bool started, ended;
  const char* name;
  int stack;
  void* user;
  thread_id_t tid;
};
Job jobs[MAXT];
thread_tls_t keys[8];
int nkeys;
int next_job;
ck::Rng* R;

__attribute__((noinline)) void leave_deeply(int depth, int code) {
  if (depth == 0) thread_exit(code);
  if (depth > 0) leave_deeply(depth - 1, code);
}
void tls_work(int id) {
  void* mine[8];
  for (int k = 0; k < nkeys; k++) {
    CK(thread_tls_get(keys[k]) == 0, "a new thread found a value in thread-local slot %d", k);
    mine[k] = 0;
  }
  int n = (int)R->below(10);
  for (int i = 0; i < n; i++) {
    int k = (int)R->below((uint64_t)nkeys);
    if (R->chance(1, 2)) {
      mine[k] = R->chance(1, 6) ? 0 : (void*)(uintptr_t)(id * 1000 + i + 1);
      thread_tls_set(keys[k], mine[k]);
      ck::count("thread-local values set");
    }
    k = (int)R->below((uint64_t)nkeys);
    void* v = thread_tls_get(keys[k]);
    CK(v == mine[k], "thread-local slot %d of thread %d holds %p instead of %p", k, id, v, mine[k]);
  }
}
int proc(void* user);
int run_child() {
  if (next_job >= MAXT) return 0;
  Job* j = &jobs[next_job++];
  thread_ptr_t t = thread_create(proc, j, j->name, j->stack);
  if (!t) {
    CK(!j->started, "thread_create returned NULL but the thread runs");
    return 0;
  }
  int c = thread_join(t);
  CK(j->ended && c == j->code, "thread_join returned %d, the thread ended with %d", c, j->code);
  thread_destroy(t);
  return 1;
}
int proc(void* user) {
  Job* j = (Job*)user;
  CK(j >= jobs && j < jobs + MAXT, "the thread was started with another argument");
  CK(!j->started, "a thread procedure was started twice");
  j->started = true;
  j->tid = thread_current_thread_id();
  CK(j->tid == thread_current_thread_id(), "the id of a thread changes");
  for (int i = 0; i < MAXT; i++)
    if (&jobs[i] != j && jobs[i].started && !jobs[i].ended) CK(jobs[i].tid != j->tid, "two live threads have the same id");
  tls_work(j->id);
  if (j->style == 3) run_child();
  j->ended = true;
  if (j->style == 1) thread_exit(j->code);
  if (j->style == 2) leave_deeply(5, j->code);
  return j->code;
}

void scenario(ck::Rng& r, uint64_t n) {
  static const char* const NAMES[] = {0, "", "worker", "fifteen letters", "a name that is much too long for the system"};
  static const int STACKS[] = {0, 0, 1, 100, 16384, 16385, 65536, 100000, 1 << 20, 8 << 20, 1 << 30, INT_MAX};
  R = &r;
  const int threads = 1 + (int)r.below(6);
  next_job = threads;
  for (int i = 0; i < MAXT; i++) {
    Job& j = jobs[i];
    j.id = i + 1;
    j.code = r.chance(1, 3) ? (int)r.range(-3, 3) : r.chance(1, 8) ? (r.chance(1, 2) ? INT_MIN : INT_MAX) : (int)(unsigned)r.next();
    j.style = (int)r.below(4);
    j.started = j.ended = false;
    j.name = NAMES[r.below(5)];
    j.stack = STACKS[r.below(12)];
    j.tid = 0;
  }
  nkeys = 1 + (int)r.below(8);
  sched::Options o = lin::options(r, r.chance(1, 2));
  o.create_den = r.chance(1, 3) ? 3 : 0;
  ck::begin_case("schedule %llu, %d threads, %d keys, seed %llu", (unsigned long long)n, threads, nkeys, (unsigned long long)o.seed);
  unsigned outcome = 0;
  sched::Result res = sched::run(o, [&]() {
    for (int k = 0; k < nkeys; k++) {
      keys[k] = thread_tls_create();
      CK(keys[k], "thread_tls_create failed");
      for (int i = 0; i < k; i++) CK(keys[i] != keys[k], "thread_tls_create returned the same index twice");
    }
    thread_ptr_t t[6];
    Job* job[6];
    for (int i = 0; i < threads; i++) {
      job[i] = &jobs[i];
      const uint64_t failed = sched::stats.failed_creates;
      t[i] = thread_create(proc, job[i], job[i]->name, job[i]->stack);
      outcome = outcome * 2 + (t[i] ? 1 : 0);
      if (!t[i]) {
        CK(sched::stats.failed_creates > failed, "thread_create returned NULL although the system created the thread");
        ck::count("creations that failed, reported as NULL");
      }
      for (int k = 0; k < i; k++) CK(!t[i] || t[k] != t[i], "two threads have the same handle");
      if (r.chance(1, 3)) {
        tls_work(100 + i);
        for (int k = 0; k < nkeys; k++) thread_tls_set(keys[k], 0);
      }
    }
    for (int i = 0; i < threads; i++) {
      int k = (int)r.below((uint64_t)threads);
      if (t[k] && r.chance(1, 2)) {
        int c = thread_join(t[k]);
        CK(job[k]->ended, "thread_join returned before the thread ended");
        CK(c == job[k]->code, "thread_join returned %d, the thread ended with %d", c, job[k]->code);
      }
    }
    for (int i = 0; i < threads; i++) {
      if (!t[i]) {
        CK(!job[i]->started, "a thread that could not be created ran");
        continue;
      }
      if (r.chance(3, 4)) {
        int c = thread_join(t[i]);
        CK(job[i]->ended && c == job[i]->code, "thread_join returned %d, the thread ended with %d", c, job[i]->code);
      }
      thread_destroy(t[i]);
      CK(job[i]->ended, "thread_destroy returned before the thread ended");
      ck::count("threads");
    }
    for (int k = 0; k < nkeys; k++) thread_tls_destroy(keys[k]);
  });
  CK(!sched::problem(), "%s", sched::problem());
  CK(res == sched::FINISHED, "the threads got stuck");
  CK(sched::unjoined() == 0, "%d threads were destroyed without being joined or detached", sched::unjoined());
  CK(sched::live_keys() == 0, "%d thread-local keys were not destroyed", sched::live_keys());
  ck::sample(ck::st().casename);
  ck::eval(ck::mix(sched::interleaving, outcome), threads > 1);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P28");
  ck::Rng r = ck::rng();
  uint64_t n = ck::st().thorough ? 1000000 : 80000;
  for (uint64_t i = 0; i < n; i++) scenario(r, i);
  lin::report_stats();
  return ck::finish();
}
