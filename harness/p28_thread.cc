// Thread lifecycle on real threads: results, stacks, names, ids, thread-local storage, and no memory or threads left behind.
#include "common.h"
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include "libs_thread.h"
#include "nanothread.h"

namespace {
const int MAXT = 24;
struct Job {
  int code, style, stack;
  char name[24];
  bool named;
  thread_tls_t* keys;
  int nkeys;
  thread_mutex_t* gate;  // held by the creator until the handle is known
  volatile int started, ended;
  thread_id_t id;
  uint64_t seed;
};
__attribute__((noinline)) void use_stack(size_t bytes) {
  // the buffer is touched from the far end: an overflow of a stack that is too small is a fault
  volatile char* b = (volatile char*)__builtin_alloca(bytes);
  b[0] = 1;
  b[bytes / 2] = 2;
  b[bytes - 1] = 3;
}
// What plain threads get here, to tell what the library does from what the system allows.
size_t default_stack;
bool realtime;
void* reference(void*) {
  pthread_attr_t a;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstacksize(&a, &default_stack);
  pthread_attr_destroy(&a);
  sched_param sp;
  memset(&sp, 0, sizeof sp);
  sp.sched_priority = sched_get_priority_min(SCHED_RR);
  realtime = pthread_setschedparam(pthread_self(), SCHED_RR, &sp) == 0;
  return 0;
}
void* nothing_to_do(void*) { return 0; }
bool plain_threads(int stack, int n) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  if (stack > 0) pthread_attr_setstacksize(&a, ((size_t)stack + 65536) / 4096 * 4096);
  pthread_t t[32];
  int k = 0;
  while (k < n && pthread_create(&t[k], &a, nothing_to_do, 0) == 0) k++;
  for (int i = 0; i < k; i++) pthread_join(t[i], 0);
  pthread_attr_destroy(&a);
  return k == n;
}
void not_created(int stack) {
  if (plain_threads(stack, 8)) ck::fail("thread_create failed with a stack of %d bytes, pthread_create does not", stack);
  ck::harness_error("no threads can be created here");
}
__attribute__((noinline)) void leave(int code) { thread_exit(code); }
int proc(void* u) {
  Job* j = (Job*)u;
  thread_mutex_lock(j->gate);
  thread_mutex_unlock(j->gate);
  if (j->started) ck::fail("a thread procedure was started twice");
  j->started = 1;
  j->id = thread_current_thread_id();
  if (j->named) {
    char n[32] = "";
    pthread_getname_np(pthread_self(), n, sizeof n);
    if (strcmp(n, j->name) != 0) ck::fail("a thread created as '%s' is called '%s'", j->name, n);
  }
  pthread_attr_t a;
  size_t size = 0;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstacksize(&a, &size);
  pthread_attr_destroy(&a);
  // a stack that an ended thread leaves serves again for up to a quarter of its size
  if (j->stack == THREAD_STACK_SIZE_DEFAULT && (size + 65536 < default_stack || size > 4 * default_stack + 65536))
    ck::fail("a thread created with the default stack has %zu bytes, others have %zu", size, default_stack);
  if (j->stack > 0) {
    if (size < (size_t)j->stack) ck::fail("a thread created with a stack of %d bytes has %zu", j->stack, size);
#ifdef PLAIN  // sanitizers need larger stacks
    const size_t least = (size_t)sysconf(_SC_THREAD_STACK_MIN);
    if (size > (j->stack > (int)least ? (size_t)j->stack : least) * 4 + 65536) ck::fail("a thread created with a stack of %d bytes has %zu", j->stack, size);
    if (j->stack >= 65536) use_stack((size_t)j->stack - 40000);
#endif
  }
  ck::Rng r(j->seed);
  void* mine[6] = {0, 0, 0, 0, 0, 0};
  for (int k = 0; k < j->nkeys; k++)
    if (thread_tls_get(j->keys[k])) ck::fail("a new thread found a value in a thread-local slot");
  for (int i = 0; i < 20 && j->nkeys; i++) {
    int k = (int)r.below((uint64_t)j->nkeys);
    if (r.chance(1, 2)) thread_tls_set(j->keys[k], mine[k] = (void*)(uintptr_t)r.next());
    if (r.chance(1, 4)) thread_yield();
    k = (int)r.below((uint64_t)j->nkeys);
    if (thread_tls_get(j->keys[k]) != mine[k]) ck::fail("a thread-local slot holds the value of another thread or slot");
  }
  if (j->style == 3) {
    thread_set_high_priority();
    int policy = 0;
    sched_param sp;
    pthread_getschedparam(pthread_self(), &policy, &sp);
    if (realtime && policy != SCHED_RR && policy != SCHED_FIFO) ck::fail("thread_set_high_priority has no effect, although the system allows it");
  }
  j->ended = 1;
  if (j->style == 1) thread_exit(j->code);
  if (j->style == 2) leave(j->code);
  return j->code;
}
int idle(void* u) { return (int)(uintptr_t)u; }
int tasks() {
  DIR* d = opendir("/proc/self/task");
  if (!d) return -1;
  int n = 0;
  while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}
void round(ck::Rng& r, uint64_t n) {
  static const int STACKS[] = {0, 0, 0, 1, 20000, 65536, 70001, 131072, 1 << 20, (1 << 20) + 1, 16 << 20};
  const int threads = 1 + (int)r.below(8);
  Job jobs[8];
  thread_tls_t keys[6];
  const int nkeys = (int)r.below(7);
  for (int k = 0; k < nkeys; k++) {
    keys[k] = thread_tls_create();
    thread_tls_set(keys[k], &keys[k]);
  }
  thread_mutex_t gate;
  thread_mutex_init(&gate);
  thread_mutex_lock(&gate);
  thread_ptr_t t[8];
  ck::begin_case("round %llu, %d threads, %d keys", (unsigned long long)n, threads, nkeys);
  for (int i = 0; i < threads; i++) {
    Job& j = jobs[i];
    memset((void*)&j, 0, sizeof j);
    j.code = r.chance(1, 3) ? (int)r.range(-2, 2) : (int)(unsigned)r.next();
    j.style = (int)r.below(4);
    j.stack = STACKS[r.below(11)];
    const char* name = 0;
    static const char* const LONG = "this name is much too long";
    if (r.chance(2, 3)) {
      size_t len = 1 + r.below(15);
      for (size_t k = 0; k < len; k++) j.name[k] = (char)('a' + r.below(26));
      j.named = true;
      name = j.name;
    } else if (r.chance(1, 3))
      name = LONG;
    j.keys = keys;
    j.nkeys = nkeys;
    j.gate = &gate;
    j.seed = r.next();
    ck::op("thread %d: style %d, code %d, stack %d, name %s", i, j.style, j.code, j.stack, name ? name : "none");
    t[i] = thread_create(proc, &j, name, j.stack);
    if (!t[i]) not_created(j.stack);
  }
  thread_mutex_unlock(&gate);
  for (int i = 0; i < threads; i++) {
    int k = r.chance(1, 2) ? i : (int)r.below((uint64_t)threads);
    if (!r.chance(2, 3)) continue;
    int c = thread_join(t[k]);
    CK(jobs[k].ended, "thread_join returned before the thread ended");
    CK(c == jobs[k].code, "thread_join returned %d, the thread ended with %d", c, jobs[k].code);
  }
  for (int i = 0; i < threads; i++) {
    if (r.chance(1, 2)) {
      int c = thread_join(t[i]);
      CK(c == jobs[i].code, "thread_join returned %d, the thread ended with %d", c, jobs[i].code);
    }
    thread_destroy(t[i]);
    CK(jobs[i].ended, "thread_destroy returned before the thread ended");
  }
  // none was joined before all had been created
  for (int i = 0; i < threads; i++) {
    CK(jobs[i].id != thread_current_thread_id(), "a thread has the id of the one that created it");
    for (int k = 0; k < i; k++) CK(jobs[i].id != jobs[k].id, "two threads have the same id");
  }
  for (int k = 0; k < nkeys; k++) {
    CK(thread_tls_get(keys[k]) == &keys[k], "a thread-local slot of the main thread changed");
    thread_tls_destroy(keys[k]);
  }
  thread_mutex_term(&gate);
  ck::count("threads", (uint64_t)threads);
  ck::sample(ck::last_ops(4));
  ck::eval(r.s, threads > 1);
}
// Every thread-local slot that can be created is something, also the first one of the process, and when there are no more it says so.
void all_slots() {
  static thread_tls_t keys[100000];
  int n = 0;
  ck::begin_case("all the thread-local slots there are");
  for (; n < 100000; n++) {
    keys[n] = thread_tls_create();
    if (!keys[n]) break;
    CK(!thread_tls_get(keys[n]), "new thread-local slot %d is not empty", n);
    thread_tls_set(keys[n], &keys[n]);
  }
  CK(n > 0, "the first thread-local slot of the process is nothing, as if it could not be created");
  CK(n >= 64 && n < 100000, "%d thread-local slots could be created", n);
  for (int i = 0; i < n; i++) CK(thread_tls_get(keys[i]) == &keys[i], "thread-local slot %d of %d holds the value of another one", i, n);
  for (int i = 0; i < n; i++) thread_tls_destroy(keys[i]);
  ck::count("thread-local slots at once", (uint64_t)n);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P28");
  all_slots();
  ck::Rng r = ck::rng();
  {
    pthread_t t;
    if (pthread_create(&t, 0, reference, 0) != 0) ck::harness_error("no threads can be created here");
    pthread_join(t, 0);
  }
  CK(thread_current_thread_id() == thread_current_thread_id(), "the id of a thread changes");
#ifndef AS_C
  nanostl::thread nothing;
  CK(!nothing.joinable(), "a default thread object is joinable");
  nothing.join();
  {
    nanostl::thread another;
    (void)another;
  }
  long cpus = sysconf(_SC_NPROCESSORS_ONLN);
  CK(nanostl::thread::hardware_concurrency() == (unsigned)cpus, "hardware_concurrency() is %u, there are %ld processors", nanostl::thread::hardware_concurrency(), cpus);
#endif
  for (int i = 0; i < 20; i++) round(r, 0);  // warm up
  const uint64_t n = ck::st().thorough ? 20000 : 400;
  for (uint64_t i = 0; i < n; i++) round(r, i);
  const int left = tasks();
  CK(left <= 2, "%d threads are left", left);  // a sanitizer may have one of its own
  // threads that are destroyed, joined before or not, leave no memory behind
  size_t before = 0;
  ck::begin_case("one thread after the other");
  for (int i = 0; i < 300; i++) {
    if (i == 100) before = ck::heap_bytes();
    thread_ptr_t t = thread_create(idle, (void*)(uintptr_t)(i + 5), i % 3 ? "idle" : 0, i % 2 ? 0 : 100000);
    if (!t) not_created(i % 2 ? 0 : 100000);
    if (i % 2) CK(thread_join(t) == i + 5, "thread_join returned something else than the thread");
    thread_destroy(t);
  }
  const size_t after = ck::heap_bytes();
  CK(after < before + 200 * 8, "200 threads left %zu bytes behind", after - before);
  // a key that is destroyed can be created again and again
  for (int i = 0; i < 5000; i++) {
    thread_tls_t k = thread_tls_create();
    CK(k, "thread_tls_create failed after %d slots were created and destroyed", i);
    CK(!thread_tls_get(k), "a new thread-local slot is not empty after %d were created and destroyed", i);
    thread_tls_set(k, &r);
    CK(thread_tls_get(k) == &r, "a thread-local slot does not work after %d were created and destroyed", i);
    thread_tls_destroy(k);
  }
  return ck::finish();
}
