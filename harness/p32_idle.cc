// What threads that wait cost: processor time and wakeups of a blocked thread, on real threads.
#include "common.h"
#include <pthread.h>
#include <sys/resource.h>
#include <time.h>
#include <vector>
#include "libs_thread.h"

namespace {
enum { LOCK, WAIT_RAISED, WAIT_TIMEOUT, CONSUME, CONSUME_TIMEOUT, PRODUCE, PRODUCE_TIMEOUT, JOIN, DESTROY, TIMER, KINDS };
const char* const NAMES[] = {"mutex_lock", "signal_wait until it is raised", "signal_wait with a timeout", "queue_consume of an empty queue",
                             "queue_consume with a timeout", "queue_produce to a full queue", "queue_produce with a timeout", "thread_join", "thread_destroy",
                             "timer_wait"};
struct Scenario {
  int kind, ms, warmup, waiters, infinite;
  thread_mutex_t mutex;
  thread_signal_t signal;
  thread_queue_t queue;
  void* slots[4];
  int size;
  pthread_t joins;  // the thread that waits for the others (one or several)
};
struct Cost {
  double cpu_ms, wall_ms;
  long wakeups;
};
struct Meter {
  rusage u;
  timespec w;
  Meter() {
    getrusage(RUSAGE_THREAD, &u);
    clock_gettime(CLOCK_MONOTONIC, &w);
  }
  static double ms(const timeval& t) { return (double)t.tv_sec * 1e3 + (double)t.tv_usec / 1e3; }
  Cost stop() const {
    rusage v;
    timespec x;
    getrusage(RUSAGE_THREAD, &v);
    clock_gettime(CLOCK_MONOTONIC, &x);
    Cost c;
    c.cpu_ms = ms(v.ru_utime) + ms(v.ru_stime) - ms(u.ru_utime) - ms(u.ru_stime);
    c.wall_ms = (double)(x.tv_sec - w.tv_sec) * 1e3 + (double)(x.tv_nsec - w.tv_nsec) / 1e6;
    c.wakeups = v.ru_nvcsw - u.ru_nvcsw;
    return c;
  }
};
struct Waiter {
  Scenario* s;
  Cost cost;
  volatile int begun;
};
void nap(int ms) {
  timespec t = {ms / 1000, (ms % 1000) * 1000000L};
  while (nanosleep(&t, &t) != 0) {
  }
}
int sleeper(void* u) {
  nap((int)(uintptr_t)u);
  return 1;
}
bool consumes(int kind) { return kind == CONSUME || kind == CONSUME_TIMEOUT; }
bool produces(int kind) { return kind == PRODUCE || kind == PRODUCE_TIMEOUT; }
// Before the wait that counts, waits that end at once leave the primitive in a state of use. A queue has one thread on each side; they do
// this in wait() and run().
void prepare(Scenario& s) {
  for (int i = 0; i < s.warmup; i++) switch (s.kind) {
      case LOCK:
        thread_mutex_lock(&s.mutex);
        thread_mutex_unlock(&s.mutex);
        break;
      case WAIT_RAISED:
      case WAIT_TIMEOUT:
        thread_signal_raise(&s.signal);
        if (i % 2) thread_signal_raise(&s.signal);
        if (!thread_signal_wait(&s.signal, i % 3 ? 5000 : THREAD_SIGNAL_WAIT_INFINITE)) ck::fail("a wait for a raised signal failed");
        break;
      default: break;
    }
}
void* wait(void* u) {
  Waiter& w = *(Waiter*)u;
  Scenario& s = *w.s;
  thread_ptr_t t = 0;
  thread_timer_t timer;
  thread_timer_init(&timer);
  if (s.kind == JOIN || s.kind == DESTROY) {
    t = thread_create(sleeper, (void*)(uintptr_t)s.ms, "sleeper", THREAD_STACK_SIZE_DEFAULT);
    if (!t) ck::harness_error("no threads can be created here");
  }
  if (consumes(s.kind))
    for (int i = 0; i < s.warmup; i++)
      if (thread_queue_consume(&s.queue, i % 3 ? 60000 : THREAD_QUEUE_WAIT_INFINITE) != &s) ck::fail("the value of a queue is not the one that was added");
  if (produces(s.kind))
    for (int i = 0; i < s.warmup + s.size; i++)
      if (!thread_queue_produce(&s.queue, &s, i % 3 ? 60000 : THREAD_QUEUE_WAIT_INFINITE)) ck::fail("a queue with room for a value did not take it");
  const int forever = s.infinite ? -1 : 60000;
  __atomic_store_n(&w.begun, 1, __ATOMIC_RELEASE);
  Meter m;
  switch (s.kind) {
    case LOCK:
      thread_mutex_lock(&s.mutex);
      w.cost = m.stop();
      thread_mutex_unlock(&s.mutex);
      break;
    case WAIT_RAISED: thread_signal_wait(&s.signal, forever); break;
    case WAIT_TIMEOUT: thread_signal_wait(&s.signal, s.ms); break;
    case CONSUME: thread_queue_consume(&s.queue, forever); break;
    case CONSUME_TIMEOUT: thread_queue_consume(&s.queue, s.ms); break;
    case PRODUCE: thread_queue_produce(&s.queue, &s, forever); break;
    case PRODUCE_TIMEOUT: thread_queue_produce(&s.queue, &s, s.ms); break;
    case JOIN: thread_join(t); break;
    case DESTROY: thread_destroy(t); break;
    case TIMER: thread_timer_wait(&timer, (THREAD_U64)s.ms * 1000000u); break;
  }
  if (s.kind != LOCK) w.cost = m.stop();
  if (s.kind == JOIN) thread_destroy(t);
  thread_timer_term(&timer);
  return 0;
}
// Starts the waiters, lets them wait, and ends the wait.
void* run(void* u) {
  Scenario& s = *(Scenario*)u;
  Waiter w[4];
  pthread_t t[4];
  for (int i = 0; i < s.waiters; i++) {
    w[i].s = &s;
    w[i].begun = 0;
    if (pthread_create(&t[i], 0, wait, &w[i]) != 0) ck::harness_error("no threads can be created here");
  }
  for (int i = 0; i < s.warmup; i++) {
    if (consumes(s.kind) && !thread_queue_produce(&s.queue, &s, 60000)) ck::fail("a queue with room for a value did not take it");
    if (produces(s.kind) && thread_queue_consume(&s.queue, 60000) != &s) ck::fail("the value of a queue is not the one that was added");
  }
  for (int i = 0; i < s.waiters; i++)
    while (!__atomic_load_n(&w[i].begun, __ATOMIC_ACQUIRE)) nap(1);
  nap(s.ms);
  switch (s.kind) {
    case LOCK: thread_mutex_unlock(&s.mutex); break;
    case WAIT_RAISED: thread_signal_raise(&s.signal); break;
    case CONSUME: thread_queue_produce(&s.queue, &s, 60000); break;
    case PRODUCE: thread_queue_consume(&s.queue, 60000); break;
    default: break;
  }
  for (int i = 0; i < s.waiters; i++) pthread_join(t[i], 0);
  for (int i = 0; i < s.waiters; i++) {
    const Cost& c = w[i].cost;
    static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    pthread_mutex_lock(&m);  // the state of ck is for one thread
    ck::count(NAMES[s.kind]);
    ck::count("milliseconds waited", (uint64_t)c.wall_ms);
    ck::maximum("processor milliseconds of one wait", c.cpu_ms);
    ck::maximum("wakeups of one wait", (double)c.wakeups);
    CK(c.cpu_ms <= 20 + c.wall_ms / 10, "%s used %.1f ms of processor time in the %.0f ms that it waited", NAMES[s.kind], c.cpu_ms, c.wall_ms);
    CK((double)c.wakeups <= 40 + c.wall_ms / 20, "%s woke up %ld times in the %.0f ms that it waited", NAMES[s.kind], c.wakeups, c.wall_ms);
    pthread_mutex_unlock(&m);
  }
  return 0;
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P32");
  ck::Rng r = ck::rng();
  const int rounds = ck::st().thorough ? 120 : 8, together = 20;
  for (int i = 0; i < rounds; i++) {
    std::vector<Scenario*> all;
    ck::begin_case("round %d", i);
    for (int k = 0; k < together; k++) {
      Scenario* s = new Scenario;
      s->kind = k < KINDS ? k : (int)r.below(KINDS);
      s->ms = 300 + (int)r.below(500);
      s->warmup = r.chance(1, 3) ? 0 : (int)r.below(200);
      s->infinite = r.chance(1, 2);
      s->waiters = s->kind == LOCK || s->kind == WAIT_TIMEOUT || s->kind == JOIN || s->kind == DESTROY || s->kind == TIMER ? 1 + (int)r.below(3) : 1;
      if (s->kind == WAIT_TIMEOUT && s->waiters > 1) s->waiters = 2;
      thread_mutex_init(&s->mutex);
      thread_signal_init(&s->signal);
      s->size = 2 + (int)r.below(3);
      thread_queue_init(&s->queue, s->size, s->slots, 0);
      prepare(*s);
      if (s->kind == LOCK) thread_mutex_lock(&s->mutex);
      ck::op("%s for %d ms, %d waiters, %d uses before", NAMES[s->kind], s->ms, s->waiters, s->warmup);
      ck::eval(((uint64_t)s->kind << 40) ^ ((uint64_t)s->ms << 20) ^ (uint64_t)(s->warmup * 16 + s->waiters * 2 + s->infinite), true);
      all.push_back(s);
    }
    for (size_t k = 0; k < all.size(); k++)
      if (all[k]->kind != LOCK && pthread_create(&all[k]->joins, 0, run, all[k]) != 0) ck::harness_error("no threads can be created here");
    for (size_t k = 0; k < all.size(); k++)
      if (all[k]->kind == LOCK && k < (size_t)KINDS) run(all[k]);  // the thread that locked it unlocks it
    for (size_t k = 0; k < all.size(); k++)
      if (all[k]->kind == LOCK && k >= (size_t)KINDS) run(all[k]);
    for (size_t k = 0; k < all.size(); k++) {
      Scenario* s = all[k];
      if (s->kind != LOCK) pthread_join(s->joins, 0);
      thread_mutex_term(&s->mutex);
      thread_signal_term(&s->signal);
      thread_queue_term(&s->queue);
      delete s;
    }
    ck::sample(ck::last_ops(6));
  }
  return ck::finish();
}
