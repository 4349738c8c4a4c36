// The threading primitives on real threads, for ThreadSanitizer and the hardware: -DMODE=24 (mutex), 25 (signal), 26 (atomics), 27 (queue).
#include "common.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <sched.h>
#include "libs_thread.h"

#if defined(__SANITIZE_THREAD__)
#define SLOW 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define SLOW 1
#endif
#endif
#ifndef SLOW
#define SLOW 0
#endif

namespace {
typedef std::chrono::steady_clock Clock;
uint64_t elapsed_ns(Clock::time_point s) { return (uint64_t)std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now() - s).count(); }
// a delay of a random kind: none, a few instructions, a yield, a real sleep
void jitter(ck::Rng& r) {
  switch (r.below(32)) {
    case 0: sched_yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
    case 2:
    case 3:
    case 4: {
      volatile int x = 0;
      for (uint64_t i = r.below(300); i > 0; i--) x = x + 1;
      break;
    }
    default: break;
  }
}
// a plain object that is only accessed under the protection of the primitive being tested
struct Payload {
  long a[4];
  long serial;
  void set(long v) {
    serial = v;
    for (int i = 0; i < 4; i++) a[i] = v * (i + 3);
  }
  bool good(long v) const {
    if (serial != v) return false;
    for (int i = 0; i < 4; i++)
      if (a[i] != v * (i + 3)) return false;
    return true;
  }
};
struct Threads {
  std::vector<std::thread> t;
  void join() {
    for (size_t i = 0; i < t.size(); i++) t[i].join();
    t.clear();
  }
};

#if MODE == 24
void round(ck::Rng& r, int loops) {
  const int n = 2 + (int)r.below(4);
  thread_mutex_t m[2];
  memset(m, 0xa5, sizeof m);
  for (int k = 0; k < 2; k++) thread_mutex_init(&m[k]);
  Payload p[2];
  for (int k = 0; k < 2; k++) p[k].set(0);
  std::atomic<int> inside[2];
  inside[0] = inside[1] = 0;
  Threads ts;
  for (int t = 0; t < n; t++) {
    uint64_t seed = r.next();
    ts.t.push_back(std::thread([&, seed]() {
      ck::Rng q(seed);
      for (int i = 0; i < loops; i++) {
        int k = (int)q.below(2);
        jitter(q);
        thread_mutex_lock(&m[k]);
        if (inside[k].fetch_add(1, std::memory_order_relaxed) != 0) ck::fail("two threads are inside of mutex %d", k);
        long s = p[k].serial;
        if (!p[k].good(s)) ck::fail("data under mutex %d is torn", k);
        if (q.chance(1, 3)) jitter(q);
        p[k].set(s + 1);
        inside[k].fetch_sub(1, std::memory_order_relaxed);
        thread_mutex_unlock(&m[k]);
      }
    }));
  }
  ts.join();
  CK(p[0].serial + p[1].serial == (long)n * loops, "%d increments under two mutexes came to %ld", n * loops, p[0].serial + p[1].serial);
  for (int k = 0; k < 2; k++) thread_mutex_term(&m[k]);
  ck::count("critical sections on real threads", (uint64_t)n * (uint64_t)loops);
  ck::eval(r.s, true);
}
// Everyone waits as long as it takes, however long a mutex is held.
void patience(ck::Rng& r) {
  thread_mutex_t m;
  thread_mutex_init(&m);
  std::atomic<bool> held(true);
  std::atomic<int> through(0);
  thread_mutex_lock(&m);
  Threads ts;
  const int n = 1 + (int)r.below(3);
  for (int t = 0; t < n; t++)
    ts.t.push_back(std::thread([&]() {
      thread_mutex_lock(&m);
      if (held) ck::fail("a thread got a mutex that another one held for a long time");
      through++;
      thread_mutex_unlock(&m);
    }));
  std::this_thread::sleep_for(std::chrono::milliseconds(60 + r.below(120)));
  CK(through == 0, "a thread got a mutex that another one holds");
  held = false;
  thread_mutex_unlock(&m);
  ts.join();
  thread_mutex_term(&m);
  ck::count("long waits on real threads", (uint64_t)n);
  ck::eval(r.s, true);
}
#elif MODE == 25
// A wait without a timeout goes on until the signal is raised, however late.
void patience(ck::Rng& r) {
  thread_signal_t s;
  thread_signal_init(&s);
  std::atomic<int> raised(0), woken(0);
  Threads ts;
  const int n = 1 + (int)r.below(3);
  for (int t = 0; t < n; t++) {
    const int timeout = r.chance(1, 3) ? 100000 : -1 - (int)r.below(3);
    ts.t.push_back(std::thread([&, timeout]() {
      if (!thread_signal_wait(&s, timeout)) ck::fail("a wait with the timeout %d gave up", timeout);
      if (++woken > raised) ck::fail("a wait succeeded although the signal was not raised");
    }));
  }
  std::this_thread::sleep_for(std::chrono::milliseconds(60 + r.below(120)));
  for (int t = 0; t < n; t++) {
    const int before = woken;
    raised++;
    thread_signal_raise(&s);
    while (woken == before) sched_yield();  // the watchdog of the runner ends this if it never comes
  }
  ts.join();
  thread_signal_term(&s);
  ck::count("long waits on real threads", (uint64_t)n);
  ck::eval(r.s, true);
}
// Signals that are terminated and freed by the thread that waited, as soon as its wait has returned.
void one_shot(ck::Rng& r, int loops) {
  std::atomic<thread_signal_t*> next(0);
  std::atomic<bool> stop(false);
  const uint64_t s1 = r.next();
  Threads ts;
  ts.t.push_back(std::thread([&]() {
    ck::Rng q(s1);
    while (!stop) {
      thread_signal_t* s = next.exchange(0);
      if (!s) continue;
      if (q.chance(1, 4)) jitter(q);
      thread_signal_raise(s);
    }
  }));
  for (int i = 0; i < loops; i++) {
    thread_signal_t* s = new thread_signal_t;
    thread_signal_init(s);
    next = s;
    if (r.chance(1, 4)) jitter(r);
    if (!thread_signal_wait(s, -1)) ck::fail("an infinite wait timed out");
    thread_signal_term(s);
    memset((void*)s, 0x77, sizeof *s);
    delete s;
  }
  stop = true;
  ts.join();
  ck::count("signals freed as soon as the wait returned", (uint64_t)loops);
  ck::eval(r.s, true);
}
void round(ck::Rng& r, int loops) {
  thread_signal_t s[2];
  memset(s, 0x5a, sizeof s);
  for (int k = 0; k < 2; k++) thread_signal_init(&s[k]);
  Payload p;
  p.set(0);
  const uint64_t s1 = r.next(), s2 = r.next();
  std::atomic<bool> stop(false);
  Threads ts;
  // ping-pong: each side owns the payload in turn
  ts.t.push_back(std::thread([&]() {
    ck::Rng q(s1);
    for (int i = 0; i < loops; i++) {
      jitter(q);
      while (!thread_signal_wait(&s[0], q.chance(1, 4) ? (int)q.below(3) : -1)) {
      }
      if (!p.good(2 * i + 1)) ck::fail("the payload published by raise() is torn");
      p.set(2 * i + 2);
      thread_signal_raise(&s[1]);
    }
  }));
  ts.t.push_back(std::thread([&]() {
    ck::Rng q(s2);
    for (int i = 0; i < loops; i++) {
      p.set(2 * i + 1);
      jitter(q);
      thread_signal_raise(&s[0]);
      jitter(q);
      while (!thread_signal_wait(&s[1], q.chance(1, 4) ? (int)q.below(3) : -1)) {
      }
      if (!p.good(2 * i + 2)) ck::fail("the payload published by raise() is torn");
    }
  }));
  ts.join();
  // each raise lets at most one wait succeed
  std::atomic<long> raised(0), woken(0);
  const int n = 1 + (int)r.below(3);
  for (int t = 0; t < n; t++) {
    const uint64_t seed = r.next();
    ts.t.push_back(std::thread([&, seed]() {
      ck::Rng q(seed);
      while (!stop) {
        if (thread_signal_wait(&s[0], (int)q.below(3))) {
          long w = ++woken;
          if (w > raised.load()) ck::fail("%ld waits succeeded after %ld raises", w, raised.load());
        }
      }
    }));
  }
  ck::Rng q(r.next());
  for (int i = 0; i < loops; i++) {
    jitter(q);
    raised++;
    thread_signal_raise(&s[0]);
  }
  std::this_thread::sleep_for(std::chrono::microseconds(200));
  stop = true;
  ts.join();
  const int left = thread_signal_wait(&s[0], 0);
  CK(woken.load() + (left ? 1 : 0) >= 1, "%d raises and nobody woke up", loops);
  CK(thread_signal_wait(&s[0], 0) == 0, "a signal stayed raised after a successful wait");
  // real time
  const int ms = 1 + (int)r.below(12);
  Clock::time_point a = Clock::now();
  CK(thread_signal_wait(&s[0], ms) == 0, "a signal that was not raised ended a wait");
  const uint64_t spent = elapsed_ns(a);
  CK(spent + 1000000 >= (uint64_t)ms * 1000000, "a wait for %d ms timed out after %.3f ms", ms, (double)spent / 1e6);
  for (int k = 0; k < 2; k++) thread_signal_term(&s[k]);
  ck::count("handovers on real threads", (uint64_t)loops * 2);
  ck::count("raises to several waiters", (uint64_t)loops);
  ck::eval(r.s, true);
}
#elif MODE == 26
// publication through every pair of a releasing and an acquiring operation
void publish(thread_atomic_int_t* f, int how, int from) {
  switch (how) {
    case 0: thread_atomic_int_store(f, from + 1); break;
    case 1: thread_atomic_int_inc(f); break;
    case 2: thread_atomic_int_add(f, 1); break;
    case 3: thread_atomic_int_sub(f, -1); break;
    case 4: thread_atomic_int_swap(f, from + 1); break;
    default: thread_atomic_int_compare_and_swap(f, from, from + 1); break;
  }
}
bool observe(thread_atomic_int_t* f, int how, int want) {
  switch (how) {
    case 0: return thread_atomic_int_load(f) == want;
    case 1: return thread_atomic_int_add(f, 0) == want;
    case 2: return thread_atomic_int_compare_and_swap(f, want, want) == want;
    default: return thread_atomic_int_sub(f, 0) == want;
  }
}
void publish(thread_atomic_ptr_t* f, int how, void* v, void* old) {
  switch (how) {
    case 0: thread_atomic_ptr_store(f, v); break;
    case 1: thread_atomic_ptr_swap(f, v); break;
    default: thread_atomic_ptr_compare_and_swap(f, old, v); break;
  }
}
void* observe(thread_atomic_ptr_t* f, int how) {
  switch (how) {
    case 0: return thread_atomic_ptr_load(f);
    case 1: return thread_atomic_ptr_compare_and_swap(f, 0, 0);
    default: return thread_atomic_ptr_swap(f, 0);
  }
}
void round(ck::Rng& r, int loops) {
  {
    thread_atomic_int_t f;
    memset(&f, 0xa5, sizeof f);
    thread_atomic_int_store(&f, 0);
    Payload p;
    p.set(0);
    const uint64_t s1 = r.next(), s2 = r.next();
    const int steps = loops;
    Threads ts;
    for (int side = 0; side < 2; side++)
      ts.t.push_back(std::thread([&, side]() {
        ck::Rng q(side ? s1 : s2);
        for (int i = side; i < steps; i += 2) {
          const int how = (int)q.below(4);
          while (!observe(&f, how, i)) sched_yield();
          if (!p.good(i)) ck::fail("what was written before the atomic became %d is not visible", i);
          p.set(i + 1);
          publish(&f, (int)q.below(6), i);
        }
      }));
    ts.join();
    ck::count("publications by an int", (uint64_t)steps);
  }
  {
    thread_atomic_ptr_t f;
    thread_atomic_ptr_store(&f, 0);
    const int steps = loops;
    std::vector<Payload> ps((size_t)steps);
    const uint64_t s1 = r.next(), s2 = r.next();
    Threads ts;
    thread_atomic_int_t taken;
    thread_atomic_int_store(&taken, 0);
    ts.t.push_back(std::thread([&]() {
      ck::Rng q(s1);
      for (int i = 0; i < steps; i++) {
        while (thread_atomic_int_load(&taken) != i) sched_yield();
        ps[(size_t)i].set(i);
        publish(&f, (int)q.below(3), &ps[(size_t)i], i ? &ps[(size_t)i - 1] : 0);
        // when the reader swapped the pointer out, the compare_and_swap above must start from null
        if (thread_atomic_ptr_load(&f) != &ps[(size_t)i] && thread_atomic_int_load(&taken) == i) thread_atomic_ptr_compare_and_swap(&f, 0, &ps[(size_t)i]);
      }
    }));
    ts.t.push_back(std::thread([&]() {
      ck::Rng q(s2);
      for (int i = 0; i < steps; i++) {
        const int how = (int)q.below(2);
        void* v;
        while ((v = observe(&f, how)) != &ps[(size_t)i]) {
          if (v && (v < (void*)ps.data() || v >= (void*)(ps.data() + steps))) ck::fail("an atomic pointer holds a value nobody stored");
          sched_yield();
        }
        if (!((Payload*)v)->good(i)) ck::fail("what was written before the pointer was published is not visible");
        thread_atomic_int_inc(&taken);
      }
    }));
    ts.join();
    ck::count("publications by a pointer", (uint64_t)steps);
  }
  {
    // conservation: swaps pass tokens around, adds and subs balance, compare_and_swap loops count
    thread_atomic_int_t sum, cas, box;
    thread_atomic_int_store(&sum, INT_MAX - 3);
    thread_atomic_int_store(&cas, INT_MAX - 3);
    thread_atomic_int_store(&box, 0);
    const int n = 2 + (int)r.below(3);
    std::vector<unsigned> added((size_t)n), held((size_t)n);
    Threads ts;
    for (int t = 0; t < n; t++) {
      const uint64_t seed = r.next();
      ts.t.push_back(std::thread([&, t, seed]() {
        ck::Rng q(seed);
        unsigned total = 0;
        int mine = t + 1;
        for (int i = 0; i < loops; i++) {
          int v = (int)q.range(-5, 5);
          switch (q.below(4)) {
            case 0: thread_atomic_int_add(&sum, v); total += (unsigned)v; break;
            case 1: thread_atomic_int_sub(&sum, v); total -= (unsigned)v; break;
            case 2: thread_atomic_int_inc(&sum); total += 1; break;
            default: thread_atomic_int_dec(&sum); total -= 1; break;
          }
          for (;;) {
            int o = thread_atomic_int_load(&cas);
            if (thread_atomic_int_compare_and_swap(&cas, o, (int)((unsigned)o + 1)) == o) break;
          }
          mine = thread_atomic_int_swap(&box, mine);
          jitter(q);
        }
        added[(size_t)t] = total;
        held[(size_t)t] = (unsigned)mine;
      }));
    }
    ts.join();
    unsigned want = (unsigned)(INT_MAX - 3), tokens = (unsigned)thread_atomic_int_load(&box), all = 0;
    for (int t = 0; t < n; t++) want += added[(size_t)t], tokens += held[(size_t)t], all += (unsigned)t + 1;
    CK((unsigned)thread_atomic_int_load(&sum) == want, "concurrent additions and subtractions came to %d instead of %d", thread_atomic_int_load(&sum), (int)want);
    CK((unsigned)thread_atomic_int_load(&cas) == (unsigned)(INT_MAX - 3) + (unsigned)n * (unsigned)loops, "concurrent compare_and_swap increments were lost");
    CK(tokens == all, "concurrent swaps lost or duplicated a value");
    ck::count("concurrent read-modify-writes", 3ull * (unsigned)n * (unsigned)loops);
  }
#if !SLOW
  {
    // store buffering: two threads that store and then load the other's variable can't both miss the other's store
    struct alignas(64) Line {
      thread_atomic_int_t v;
      thread_atomic_ptr_t p;
    };
    static Line x, y;
    alignas(64) static std::atomic<int> gate[2];
    gate[0] = gate[1] = 0;
    const int steps = loops * 20;
    std::vector<signed char> r1((size_t)steps), r2((size_t)steps);
    const int how = (int)r.below(3);
    thread_atomic_int_store(&x.v, -1);
    thread_atomic_int_store(&y.v, -1);
    thread_atomic_ptr_store(&x.p, 0);
    thread_atomic_ptr_store(&y.p, 0);
    Threads ts;
    for (int side = 0; side < 2; side++)
      ts.t.push_back(std::thread([&, side]() {
        Line &mine = side ? y : x, &other = side ? x : y;
        std::vector<signed char>& out = side ? r2 : r1;
        for (int i = 0; i < steps; i++) {
          gate[side].store(i + 1, std::memory_order_release);
          for (int spin = 0; gate[!side].load(std::memory_order_acquire) < i + 1; spin++)
            if (spin > 2000) sched_yield();
          if (how == 0) {
            thread_atomic_int_store(&mine.v, i);
            out[(size_t)i] = thread_atomic_int_load(&other.v) >= i;
          } else if (how == 1) {
            thread_atomic_int_swap(&mine.v, i);
            out[(size_t)i] = thread_atomic_int_load(&other.v) >= i;
          } else {
            thread_atomic_ptr_store(&mine.p, (void*)(uintptr_t)(i + 1));
            out[(size_t)i] = (uintptr_t)thread_atomic_ptr_load(&other.p) >= (uintptr_t)(i + 1);
          }
        }
      }));
    ts.join();
    uint64_t both = 0, one = 0;
    for (int i = 0; i < steps; i++) {
      if (!r1[(size_t)i] && !r2[(size_t)i]) ck::fail("two threads each stored and then missed the store of the other (step %d, kind %d)", i, how);
      (r1[(size_t)i] && r2[(size_t)i] ? both : one)++;
    }
    ck::count("store-buffering trials where one thread came first", one);
    ck::count("store-buffering trials where both saw the other", both);
  }
#endif
  ck::eval(r.s, true);
}
#else
void round(ck::Rng& r, int loops) {
  const int size = 1 + (int)r.below(r.chance(1, 2) ? 4 : 64);
  const int initial = (int)r.below((uint64_t)size + 1);
  std::vector<void*> slots((size_t)size);
  const int total = loops * 4;
  std::vector<Payload> ps((size_t)total);
  for (int i = 0; i < initial && i < total; i++) {
    ps[(size_t)i].set(i);
    slots[(size_t)i] = &ps[(size_t)i];
  }
  const int first = initial < total ? initial : total;
  thread_queue_t q;
  memset(&q, 0xa5, sizeof q);
  thread_queue_init(&q, size, slots.data(), first);
  const uint64_t s1 = r.next(), s2 = r.next();
  const unsigned pace = r.chance(1, 3) ? 1 : 8;
  Threads ts;
  std::atomic<bool> stop(false);
  ts.t.push_back(std::thread([&]() {
    ck::Rng k(s1);
    for (int i = first; i < total; i++) {
      if (k.chance(1, pace)) jitter(k);
      ps[(size_t)i].set(i);
      while (!thread_queue_produce(&q, &ps[(size_t)i], k.chance(1, 4) ? (int)k.below(3) : -1)) {
      }
    }
  }));
  ts.t.push_back(std::thread([&]() {
    ck::Rng k(s2);
    for (int i = 0; i < total; i++) {
      if (k.chance(1, 9 - pace)) jitter(k);
      void* v;
      while (!(v = thread_queue_consume(&q, k.chance(1, 4) ? (int)k.below(3) : -1))) {
      }
      if (v != &ps[(size_t)i]) ck::fail("value %d came out of the queue instead of value %d", (int)((Payload*)v - ps.data()), i);
      if (!ps[(size_t)i].good(i)) ck::fail("what was written before value %d was produced is not visible", i);
      ps[(size_t)i].set(-1);
    }
    if (thread_queue_consume(&q, 0)) ck::fail("a value came out of the queue twice");
  }));
  std::thread watch([&]() {
    while (!stop) {
      int c = thread_queue_count(&q);
      if (c < 0 || c > size) ck::fail("a queue of %d holds %d values", size, c);
      sched_yield();
    }
  });
  ts.join();
  stop = true;
  watch.join();
  CK(thread_queue_count(&q) == 0, "an empty queue holds %d values", thread_queue_count(&q));
  thread_queue_term(&q);
  ck::count("values through the queue on real threads", (uint64_t)total);
  ck::eval(r.s, true);
}
// Producing to a full queue and consuming from an empty one goes on until there is room or a value, however late.
void patience(ck::Rng& r) {
  void* slots[2];
  thread_queue_t q;
  thread_queue_init(&q, 2, slots, 0);
  std::atomic<int> step(0);
  const int timeout = r.chance(1, 3) ? 100000 : -1 - (int)r.below(3);
  Threads ts;
  ts.t.push_back(std::thread([&]() {
    for (uintptr_t i = 1; i <= 3; i++) {
      if (i == 1) std::this_thread::sleep_for(std::chrono::milliseconds(60 + 40 * (timeout & 1)));
      if (!thread_queue_produce(&q, (void*)i, timeout)) ck::fail("producing with the timeout %d gave up", timeout);
    }
    if (!thread_queue_produce(&q, (void*)(uintptr_t)4, timeout)) ck::fail("producing with the timeout %d gave up", timeout);
    if (step != 1) ck::fail("a third value was produced to a queue of two");
  }));
  ts.t.push_back(std::thread([&]() {
    if (thread_queue_consume(&q, timeout) != (void*)(uintptr_t)1) ck::fail("consuming with the timeout %d gave up", timeout);
    std::this_thread::sleep_for(std::chrono::milliseconds(60 + 40 * (timeout & 1)));
    step = 1;
    for (uintptr_t i = 2; i <= 4; i++)
      if (thread_queue_consume(&q, timeout) != (void*)i) ck::fail("value %d did not come out with the timeout %d", (int)i, timeout);
  }));
  ts.join();
  thread_queue_term(&q);
  ck::count("long waits on real threads", 2);
  ck::eval(r.s, true);
}
// the same queue for more than 2^31 values
void marathon() {
  const uint64_t total = (1ull << 31) + 100000;
  void* slots[3];
  thread_queue_t q;
  thread_queue_init(&q, 3, slots, 0);
  for (uint64_t i = 1; i <= total; i++) {
    if (!thread_queue_produce(&q, (void*)(uintptr_t)i, 0)) ck::fail("value %llu could not be produced", (unsigned long long)i);
    if ((uint64_t)(uintptr_t)thread_queue_consume(&q, 0) != i) ck::fail("value %llu did not come out", (unsigned long long)i);
  }
  thread_queue_term(&q);
  ck::count("values through one queue", total);
  ck::enumerated(1);
}
#endif
}  // namespace

int main(int argc, char** argv) {
  static char prop[] = {'P', (char)('0' + MODE / 10), (char)('0' + MODE % 10), 0};
  ck::init(argc, argv, prop);
  ck::Rng r = ck::rng(77);
#ifdef MARATHON
  ck::begin_case("marathon");
  marathon();
#else
#if MODE != 26
  for (int i = 0; i < (ck::st().thorough ? 20 : 8); i++) {
    ck::begin_case("long wait %d on real threads", i);
    patience(r);
  }
#endif
  const int rounds = ck::st().thorough ? 400 : 20;
  for (int i = 0; i < rounds; i++) {
    ck::begin_case("round %d on real threads", i);
    round(r, SLOW ? 1500 : 6000);
#if MODE == 25
    one_shot(r, SLOW ? 500 : 6000);
#endif
  }
#endif
  return ck::finish();
}
