#include "fibers.h"

#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sched {
Stats stats;
uint64_t interleaving;

namespace {
typedef uint64_t u64;
const size_t STACK = 192 * 1024;
const u64 REALTIME_BASE = 1700000000ull * 1000000000ull;
const u64 NEVER = ~0ull;

enum State { READY, ON_MUTEX, ON_COND, ASLEEP, ON_JOIN, DONE };
struct Fiber {
  ucontext_t ctx;
  char* stack;
  State state;
  void* mutex;  // wanted or to be reacquired
  void* cond;
  bool signalled, spurious, timed_out;
  u64 deadline;
  int target;
  u64 priority;
  std::function<void()> body;
  void* (*start)(void*);
  void* arg;
  void* result;
  bool is_pthread, joined, detached;
  u64 stack_size;
  std::string name;
  std::map<pthread_key_t, void*> tls;
};
struct Mutex {
  int owner;  // -1: free
  int depth;
  int type;
};
struct Cond {
  clockid_t clock;
};

std::vector<std::unique_ptr<Fiber>> fibers;
std::vector<char*> stacks;
std::map<void*, Mutex> mutexes;
std::map<void*, Cond> conds;
std::map<pthread_key_t, void (*)(void*)> keys;
pthread_key_t next_key;
ucontext_t home;
Options opt;
u64 rng, clock_ns, realtime_offset, steps, streak;
int current = -1;
bool active;
Result verdict;
std::string misuse;
std::vector<u64> change_points;
u64 low_priority;

u64 rnd() {
  u64 z = (rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
bool dice(unsigned den) { return den && rnd() % den == 0; }

void complain(const char* f, ...) {
  if (!misuse.empty()) return;
  char b[200];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  misuse = b;
}

bool mutex_free(void* m) {
  std::map<void*, Mutex>::iterator i = mutexes.find(m);
  return i == mutexes.end() || i->second.owner == -1;
}
bool enabled(const Fiber& f) {
  switch (f.state) {
    case READY: return true;
    case ON_MUTEX: return mutex_free(f.mutex);
    case ON_COND: return (f.signalled || f.spurious || clock_ns >= f.deadline) && mutex_free(f.mutex);
    case ASLEEP: return clock_ns >= f.deadline;
    case ON_JOIN: return fibers[(size_t)f.target]->state == DONE;
    default: return false;
  }
}
u64 next_deadline() {
  u64 d = NEVER;
  for (size_t i = 0; i < fibers.size(); i++) {
    const Fiber& f = *fibers[i];
    if ((f.state == ON_COND && !f.signalled && !f.spurious) || f.state == ASLEEP)
      if (f.deadline > clock_ns && f.deadline < d) d = f.deadline;
  }
  return d;
}
// The next thread to run, or -1 when there is none.
int pick() {
  if (dice(opt.hurry_den)) {
    u64 d = next_deadline();
    if (d != NEVER) {
      clock_ns = d + rnd() % 3;
      stats.jumps++;
    }
  }
  if (dice(opt.spurious_den)) {
    for (size_t i = 0; i < fibers.size(); i++)
      if (fibers[i]->state == ON_COND && !fibers[i]->signalled && (rnd() & 1)) {
        fibers[i]->spurious = true;
        stats.spurious++;
        break;
      }
  }
  for (;;) {
    int list[64], n = 0;
    for (size_t i = 0; i < fibers.size() && n < 64; i++)
      if (enabled(*fibers[i])) list[n++] = (int)i;
    if (!n) {
      u64 d = next_deadline();
      if (d == NEVER) return -1;
      clock_ns = d + (rnd() & 1 ? 0 : rnd() % 2000);
      continue;
    }
    if (opt.strategy == RANDOM) return list[rnd() % (u64)n];
    int best = list[0];
    for (int i = 1; i < n; i++)
      if (fibers[(size_t)list[i]]->priority > fibers[(size_t)best]->priority) best = list[i];
    return best;
  }
}
void leave(Result r) {
  verdict = r;
  active = false;
  Fiber& me = *fibers[(size_t)current];
  swapcontext(&me.ctx, &home);
  abort();
}
void go(int next) {
  if (next == current) return;
  Fiber& from = *fibers[(size_t)current];
  Fiber& to = *fibers[(size_t)next];
  stats.switches++;
  streak = 0;
  interleaving = (interleaving ^ (u64)(next + 1) ^ (steps << 8)) * 0x100000001b3ull;
  interleaving ^= interleaving >> 29;
  current = next;
  swapcontext(&from.ctx, &to.ctx);
}
// The running thread can not go on until enabled() again.
void block() {
  int n = pick();
  if (n < 0) leave(DEADLOCK);
  go(n);
}
void yield_point(bool forced) {
  if (!active) return;
  stats.points++;
  steps++;
  streak++;
  if (steps > opt.limit) leave(ENDLESS);
  bool move = forced;
  if (opt.strategy == RANDOM) {
    if (dice(opt.switch_den)) move = true;
  } else {
    while (!change_points.empty() && steps >= change_points.back()) {
      change_points.pop_back();
      fibers[(size_t)current]->priority = low_priority--;
      move = true;
    }
    if (forced || streak > 3000) {
      fibers[(size_t)current]->priority = low_priority--;
      move = true;
    }
  }
  if (move) block();
}

void finish_fiber() {
  Fiber& f = *fibers[(size_t)current];
  // destructors of thread-local values
  for (int round = 0; round < 4; round++) {
    bool any = false;
    std::map<pthread_key_t, void*> t;
    t.swap(f.tls);
    for (std::map<pthread_key_t, void*>::iterator i = t.begin(); i != t.end(); ++i) {
      std::map<pthread_key_t, void (*)(void*)>::iterator k = keys.find(i->first);
      if (i->second && k != keys.end() && k->second) {
        any = true;
        k->second(i->second);
      }
    }
    if (!any) break;
  }
  for (std::map<void*, Mutex>::iterator i = mutexes.begin(); i != mutexes.end(); ++i)
    if (i->second.owner == current) complain("thread %d ended while it held a mutex", current);
  f.state = DONE;
  bool all = true;
  for (size_t i = 0; i < fibers.size(); i++) all = all && fibers[i]->state == DONE;
  if (all) leave(FINISHED);
  block();
  abort();
}
void entry() {
  Fiber& f = *fibers[(size_t)current];
  if (f.start)
    f.result = f.start(f.arg);
  else
    f.body();
  finish_fiber();
}
int make_fiber() {
  std::unique_ptr<Fiber> f(new Fiber());
  f->state = READY;
  f->mutex = f->cond = 0;
  f->signalled = f->spurious = f->timed_out = false;
  f->deadline = NEVER;
  f->priority = (rnd() >> 1) | (1ull << 62);
  f->start = 0;
  f->is_pthread = f->joined = f->detached = false;
  f->stack_size = 0;
  if (stacks.empty())
    f->stack = (char*)malloc(STACK);
  else {
    f->stack = stacks.back();
    stacks.pop_back();
  }
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = STACK;
  f->ctx.uc_link = 0;
  makecontext(&f->ctx, entry, 0);
  fibers.push_back(std::move(f));
  return (int)fibers.size() - 1;
}
void sleep_until(u64 t) {
  Fiber& f = *fibers[(size_t)current];
  f.state = ASLEEP;
  f.deadline = t;
  block();
  f.state = READY;
}
u64 realtime() { return REALTIME_BASE + realtime_offset + clock_ns; }
const u64 MONOTONIC_BASE = 5000ull * 1000000000ull;
u64 clock_of(clockid_t c) { return c == CLOCK_REALTIME ? realtime() : MONOTONIC_BASE + clock_ns; }
}  // namespace

Result run(const Options& o, const std::function<void()>& body) {
  for (size_t i = 0; i < fibers.size(); i++) stacks.push_back(fibers[i]->stack);
  fibers.clear();
  mutexes.clear();
  conds.clear();
  keys.clear();
  next_key = 0;
  misuse.clear();
  opt = o;
  rng = o.seed;
  clock_ns = rnd() % 1000000;
  realtime_offset = rnd() % 4 == 0 ? 999000000ull + rnd() % 1000000 : rnd() % 1000000000ull;
  steps = streak = 0;
  interleaving = 0xcbf29ce484222325ull;
  low_priority = 1ull << 61;
  change_points.clear();
  if (o.strategy == PCT) {
    std::set<u64> c;
    for (unsigned i = 0; i < o.changes; i++) c.insert(1 + rnd() % (o.horizon ? o.horizon : 1));
    change_points.assign(c.rbegin(), c.rend());  // descending: the next one is at the back
  }
  stats.runs++;
  make_fiber();
  fibers[0]->body = body;
  current = 0;
  active = true;
  swapcontext(&home, &fibers[0]->ctx);
  active = false;
  current = -1;
  return verdict;
}
int spawn(const std::function<void()>& body) {
  int id = make_fiber();
  fibers[(size_t)id]->body = body;
  yield_point(false);
  return id;
}
void join(int id) {
  if (fibers[(size_t)id]->state != DONE) {
    Fiber& f = *fibers[(size_t)current];
    f.state = ON_JOIN;
    f.target = id;
    block();
    f.state = READY;
  }
}
int self() { return current; }
void point() { yield_point(false); }
u64 now() { return clock_ns; }
void wait_until(u64 t) {
  if (t > clock_ns) sleep_until(t);
}
int unjoined() {
  int n = 0;
  for (size_t i = 0; i < fibers.size(); i++) n += fibers[i]->is_pthread && !fibers[i]->joined && !fibers[i]->detached;
  return n;
}
const char* problem() { return misuse.empty() ? 0 : misuse.c_str(); }
u64 stack_size_of(int id) { return fibers[(size_t)id]->stack_size; }
const char* name_of(int id) { return fibers[(size_t)id]->name.c_str(); }
int live_in(const void* p, size_t n) {
  const char *b = (const char*)p, *e = b + n;
  int k = 0;
  for (std::map<void*, Mutex>::iterator i = mutexes.begin(); i != mutexes.end(); ++i) k += (char*)i->first >= b && (char*)i->first < e;
  for (std::map<void*, Cond>::iterator i = conds.begin(); i != conds.end(); ++i) k += (char*)i->first >= b && (char*)i->first < e;
  return k;
}
int live_keys() { return (int)keys.size(); }
}  // namespace sched

// ---- pthread and time functions, redirected here with -Wl,--wrap ----
using namespace sched;
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
extern "C" {
REAL(int, pthread_mutex_lock, pthread_mutex_t*);

static Mutex* find_mutex(void* m, const char* what) {
  std::map<void*, Mutex>::iterator i = mutexes.find(m);
  if (i != mutexes.end()) return &i->second;
  static const pthread_mutex_t zero = PTHREAD_MUTEX_INITIALIZER;
  if (memcmp(m, &zero, sizeof zero) != 0) complain("%s of a mutex that is not initialized", what);
  Mutex n = {-1, 0, PTHREAD_MUTEX_DEFAULT};
  return &(mutexes[m] = n);
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  int type = PTHREAD_MUTEX_DEFAULT;
  if (a) pthread_mutexattr_gettype(a, &type);
  std::map<void*, Mutex>::iterator i = mutexes.find(m);
  if (i != mutexes.end() && i->second.owner != -1) complain("a locked mutex was initialized");
  Mutex n = {-1, 0, type};
  mutexes[m] = n;
  memset(m, 0xcd, sizeof *m);
  yield_point(false);
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
  yield_point(false);
  Mutex* x = find_mutex(m, "destruction");
  if (x->owner != -1) complain("a locked mutex was destroyed");
  mutexes.erase(m);
  memset(m, 0xdd, sizeof *m);
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  yield_point(false);
  Mutex* x = find_mutex(m, "lock");
  if (x->owner == current) {
    if (x->type == PTHREAD_MUTEX_RECURSIVE) {
      x->depth++;
      return 0;
    }
    if (x->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (x->owner != -1) {
    stats.contended++;
    Fiber& f = *fibers[(size_t)current];
    f.state = ON_MUTEX;
    f.mutex = m;
    block();
    f.state = READY;
    x = find_mutex(m, "lock");
  }
  x->owner = current;
  x->depth = 1;
  yield_point(false);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  yield_point(false);
  Mutex* x = find_mutex(m, "lock");
  if (x->owner == current && x->type == PTHREAD_MUTEX_RECURSIVE) {
    x->depth++;
    return 0;
  }
  if (x->owner != -1) return EBUSY;
  x->owner = current;
  x->depth = 1;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  Mutex* x = find_mutex(m, "unlock");
  if (x->owner != current) {
    complain("thread %d unlocked a mutex held by thread %d", current, x->owner);
    return EPERM;
  }
  if (--x->depth == 0) x->owner = -1;
  yield_point(false);
  return 0;
}
static Cond* find_cond(void* c, const char* what) {
  std::map<void*, Cond>::iterator i = conds.find(c);
  if (i != conds.end()) return &i->second;
  static const pthread_cond_t zero = PTHREAD_COND_INITIALIZER;
  if (memcmp(c, &zero, sizeof zero) != 0) complain("%s of a condition that is not initialized", what);
  Cond n = {CLOCK_REALTIME};
  return &(conds[c] = n);
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  Cond n = {CLOCK_REALTIME};
  if (a) pthread_condattr_getclock(a, &n.clock);
  conds[c] = n;
  memset(c, 0xce, sizeof *c);
  yield_point(false);
  return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
  yield_point(false);
  find_cond(c, "destruction");
  for (size_t i = 0; i < fibers.size(); i++)
    if (fibers[i]->state == ON_COND && fibers[i]->cond == c) complain("a condition was destroyed while thread %d waits for it", (int)i);
  conds.erase(c);
  memset(c, 0xde, sizeof *c);
  return 0;
}
static int wake(pthread_cond_t* c, bool all) {
  yield_point(false);
  find_cond(c, "signal");
  std::vector<Fiber*> w;
  for (size_t i = 0; i < fibers.size(); i++)
    if (fibers[i]->state == ON_COND && fibers[i]->cond == c && !fibers[i]->signalled) w.push_back(fibers[i].get());
  if (!w.empty()) {
    if (all)
      for (size_t i = 0; i < w.size(); i++) w[i]->signalled = true;
    else
      w[rnd() % w.size()]->signalled = true;
  }
  yield_point(false);
  return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) { return wake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { return wake(c, true); }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t, clockid_t clk) {
  yield_point(false);
  Mutex* x = find_mutex(m, "wait");
  if (t && (t->tv_nsec < 0 || t->tv_nsec >= 1000000000)) return EINVAL;
  if (x->owner != current) complain("thread %d waits without holding the mutex", current);
  Fiber& f = *fibers[(size_t)current];
  f.deadline = NEVER;
  if (t) {
    u64 base = clock_of(clk) - clock_ns;
    // a time before the start of the run is in the past
    u64 abs = t->tv_sec < 0 ? 0 : (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec;
    f.deadline = abs > base ? abs - base : 0;
  }
  x->owner = -1;
  f.state = ON_COND;
  f.cond = c;
  f.mutex = m;
  f.signalled = f.spurious = false;
  block();
  f.state = READY;
  f.cond = 0;
  bool late = !f.signalled && !f.spurious;
  x = find_mutex(m, "wait");
  x->owner = current;
  x->depth = 1;
  f.deadline = NEVER;
  if (late) stats.timeouts++;
  return late ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  find_cond(c, "wait");
  return cond_wait(c, m, 0, CLOCK_REALTIME);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return cond_wait(c, m, t, find_cond(c, "wait")->clock); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  find_cond(c, "wait");
  return cond_wait(c, m, t, k);
}
int __wrap_sched_yield() {
  clock_ns += 500;
  yield_point(true);
  return 0;
}
int __wrap_pthread_yield() { return __wrap_sched_yield(); }

int __wrap_gettimeofday(timeval* tv, void*) {
  yield_point(false);
  clock_ns += rnd() % 200;
  u64 t = realtime();
  tv->tv_sec = (time_t)(t / 1000000000ull);
  tv->tv_usec = (suseconds_t)(t % 1000000000ull / 1000);
  return 0;
}
int __wrap_clock_gettime(clockid_t c, timespec* ts) {
  yield_point(false);
  clock_ns += rnd() % 200;
  u64 t = clock_of(c);
  ts->tv_sec = (time_t)(t / 1000000000ull);
  ts->tv_nsec = (long)(t % 1000000000ull);
  return 0;
}
time_t __wrap_time(time_t* out) {
  yield_point(false);
  // the coarse clock lags behind by up to a tick
  time_t t = (time_t)((realtime() - rnd() % 4000000) / 1000000000ull);
  if (out) *out = t;
  return t;
}
static int interruptible_sleep(u64 ns, timespec* rem) {
  yield_point(false);
  u64 end = clock_ns + ns;
  if (ns && dice(opt.eintr_den)) {
    u64 part = rnd() % 8 == 0 ? 0 : rnd() % ns;
    sleep_until(clock_ns + part);
    stats.interrupted++;
    u64 left = end > clock_ns ? end - clock_ns : 0;
    if (rem) {
      rem->tv_sec = (time_t)(left / 1000000000ull);
      rem->tv_nsec = (long)(left % 1000000000ull);
    }
    return EINTR;
  }
  sleep_until(end);
  return 0;
}
int __wrap_nanosleep(const timespec* req, timespec* rem) {
  if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) {
    errno = EINVAL;
    return -1;
  }
  int r = interruptible_sleep((u64)req->tv_sec * 1000000000ull + (u64)req->tv_nsec, rem);
  if (r) errno = r;
  return r ? -1 : 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const timespec* req, timespec* rem) {
  if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0) return EINVAL;
  u64 t = (u64)req->tv_sec * 1000000000ull + (u64)req->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    u64 n = clock_of(c);
    return interruptible_sleep(t > n ? t - n : 0, 0);
  }
  return interruptible_sleep(t, rem);
}
int __wrap_usleep(useconds_t us) {
  int r = interruptible_sleep((u64)us * 1000, 0);
  if (r) errno = r;
  return r ? -1 : 0;
}

// threads: a pthread_t is the index of the fiber plus one, spread out
static pthread_t handle_of(int id) { return (pthread_t)(0x1000 + 64 * (unsigned long)id); }
static int id_of(pthread_t t) {
  long i = ((long)t - 0x1000) / 64;
  if (i < 0 || (size_t)i >= fibers.size() || handle_of((int)i) != t) {
    complain("a thread handle that was never given out");
    return -1;
  }
  return (int)i;
}
pthread_t __wrap_pthread_self() { return handle_of(current); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*start)(void*), void* arg) {
  yield_point(false);
  if (dice(opt.create_den)) {
    stats.failed_creates++;
    return EAGAIN;
  }
  int id = make_fiber();
  Fiber& f = *fibers[(size_t)id];
  f.start = start;
  f.arg = arg;
  f.is_pthread = true;
  if (a) {
    size_t n = 0;
    pthread_attr_getstacksize(a, &n);
    f.stack_size = n;
    int d = 0;
    pthread_attr_getdetachstate(a, &d);
    f.detached = d == PTHREAD_CREATE_DETACHED;
  }
  *t = handle_of(id);
  yield_point(false);
  return 0;
}
int __wrap_pthread_join(pthread_t t, void** r) {
  yield_point(false);
  int id = id_of(t);
  if (id < 0) return ESRCH;
  if (fibers[(size_t)id]->joined) {
    complain("thread %d was joined twice", id);
    return EINVAL;
  }
  if (fibers[(size_t)id]->detached) {
    complain("thread %d was joined although detached", id);
    return EINVAL;
  }
  fibers[(size_t)id]->joined = true;
  sched::join(id);
  if (r) *r = fibers[(size_t)id]->result;
  return 0;
}
int __wrap_pthread_detach(pthread_t t) {
  int id = id_of(t);
  if (id < 0) return ESRCH;
  if (fibers[(size_t)id]->joined || fibers[(size_t)id]->detached) complain("thread %d was detached after being joined or detached", id);
  fibers[(size_t)id]->detached = true;
  return 0;
}
void __wrap_pthread_exit(void* r) {
  fibers[(size_t)current]->result = r;
  finish_fiber();
  abort();
}
int __wrap_pthread_setname_np(pthread_t t, const char* n) {
  int id = id_of(t);
  if (strlen(n) > 15) return ERANGE;
  if (id >= 0) fibers[(size_t)id]->name = n;
  return 0;
}
int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
  if (keys.size() >= 1024) return EAGAIN;
  *k = next_key++;
  keys[*k] = d;
  yield_point(false);
  return 0;
}
int __wrap_pthread_key_delete(pthread_key_t k) {
  if (!keys.erase(k)) complain("a thread-local key was deleted twice or never created");
  for (size_t i = 0; i < fibers.size(); i++) fibers[i]->tls.erase(k);
  return 0;
}
int __wrap_pthread_setspecific(pthread_key_t k, const void* v) {
  yield_point(false);
  if (!keys.count(k)) {
    complain("a thread-local key that does not exist was set");
    return EINVAL;
  }
  fibers[(size_t)current]->tls[k] = const_cast<void*>(v);
  return 0;
}
void* __wrap_pthread_getspecific(pthread_key_t k) {
  yield_point(false);
  std::map<pthread_key_t, void*>& t = fibers[(size_t)current]->tls;
  std::map<pthread_key_t, void*>::iterator i = t.find(k);
  return i == t.end() ? 0 : i->second;
}

// ---- the interface of ThreadSanitizer that compiled code calls ----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void*, unsigned long) { yield_point(false); }
void __tsan_write_range(void*, unsigned long) { yield_point(false); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  yield_point(false);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  yield_point(false);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  yield_point(false);
  return memset(d, c, n);
}
#define ACCESS(n)                                                   \
  void __tsan_read##n(void*) { yield_point(false); }                \
  void __tsan_write##n(void*) { yield_point(false); }               \
  void __tsan_unaligned_read##n(void*) { yield_point(false); }      \
  void __tsan_unaligned_write##n(void*) { yield_point(false); }     \
  void __tsan_volatile_read##n(void*) { yield_point(false); }       \
  void __tsan_volatile_write##n(void*) { yield_point(false); }      \
  void __tsan_unaligned_volatile_read##n(void*) { yield_point(false); }  \
  void __tsan_unaligned_volatile_write##n(void*) { yield_point(false); } \
  void __tsan_read##n##_pc(void*, void*) { yield_point(false); }    \
  void __tsan_write##n##_pc(void*, void*) { yield_point(false); }   \
  void __tsan_read_write##n(void*, void*) { yield_point(false); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
#define FETCH(bits, T, name, expr)                                    \
  T __tsan_atomic##bits##_fetch_##name(volatile T* p, T v, int) {     \
    yield_point(false);                                               \
    T o = *p;                                                         \
    *p = (T)(expr);                                                   \
    yield_point(false);                                               \
    return o;                                                         \
  }
#define ATOMIC(bits, T)                                                                              \
  T __tsan_atomic##bits##_load(const volatile T* p, int) {                                           \
    yield_point(false);                                                                              \
    T o = *p;                                                                                        \
    yield_point(false);                                                                              \
    return o;                                                                                        \
  }                                                                                                  \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) {                                        \
    yield_point(false);                                                                              \
    *p = v;                                                                                          \
    yield_point(false);                                                                              \
  }                                                                                                  \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) {                                        \
    yield_point(false);                                                                              \
    T o = *p;                                                                                        \
    *p = v;                                                                                          \
    yield_point(false);                                                                              \
    return o;                                                                                        \
  }                                                                                                  \
  FETCH(bits, T, add, o + v)                                                                         \
  FETCH(bits, T, sub, o - v)                                                                         \
  FETCH(bits, T, and, o & v)                                                                         \
  FETCH(bits, T, or, o | v)                                                                          \
  FETCH(bits, T, xor, o ^ v)                                                                         \
  FETCH(bits, T, nand, ~(o & v))                                                                     \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {            \
    yield_point(false);                                                                              \
    T o = *p;                                                                                        \
    bool ok = o == *e;                                                                               \
    if (ok)                                                                                          \
      *p = v;                                                                                        \
    else                                                                                             \
      *e = o;                                                                                        \
    yield_point(false);                                                                              \
    return ok;                                                                                       \
  }                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) {          \
    if (active && rnd() % 8 == 0) {                                                                  \
      yield_point(false);                                                                            \
      *e = *p;                                                                                       \
      return 0;                                                                                      \
    }                                                                                                \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b);                             \
  }                                                                                                  \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int a, int b) {              \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, a, b);                                   \
    return e;                                                                                        \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { yield_point(false); }
void __tsan_atomic_signal_fence(int) {}
}
