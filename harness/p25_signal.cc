// Signals under the deterministic scheduler: every history must be explained by a flag that raise() sets and a successful
// wait() tests and clears.
#include "common.h"
#include "lin.h"
#include "libs_thread.h"

namespace {
enum { RAISE, WAIT };
const char* const NAMES[] = {"raise", "wait"};
struct Flag {
  typedef int State;
  int end;  // required at the end, or -1
  bool apply(State& s, const lin::Op& o) const {
    if (o.kind == RAISE) {
      s = 1;
      return true;
    }
    if (o.result) {
      if (!s) return false;
      s = 0;
      return true;
    }
    return !s;
  }
  bool last(State s) const { return end < 0 || s == end; }
};

struct Step {
  int kind, signal;
  int timeout;
  uint64_t delay;
};
struct Scenario {
  int signals, threads;
  std::vector<std::vector<Step>> steps;
};

Scenario* S;
lin::History* H;
thread_signal_t* sig;

void thread_body(int t) {
  const std::vector<Step>& s = S->steps[(size_t)t];
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i].delay) sched::wait_until(sched::now() + s[i].delay);
    if (s[i].kind == RAISE) {
      size_t k = H->begin(t, s[i].signal, RAISE);
      thread_signal_raise(&sig[s[i].signal]);
      H->end(k, 0);
    } else {
      size_t k = H->begin(t, s[i].signal, WAIT, s[i].timeout);
      int r = thread_signal_wait(&sig[s[i].signal], s[i].timeout);
      H->end(k, r != 0);
    }
  }
}

// Whoever waited may terminate the signal and reuse its memory as soon as the wait has returned, even if the call of raise() has not.
void one_shot(ck::Rng& r, uint64_t n) {
  const int signals = 1 + (int)r.below(3), late = (int)r.below(4);
  std::vector<thread_signal_t> store((size_t)signals);
  memset(store.data(), 0xa5, sizeof store[0] * store.size());
  sched::Options o = lin::options(r, r.chance(1, 2));
  ck::begin_case("one shot %llu, seed %llu", (unsigned long long)n, (unsigned long long)o.seed);
  const bool timed = r.chance(1, 3);
  sched::Result res = sched::run(o, [&]() {
    for (int i = 0; i < signals; i++) thread_signal_init(&store[(size_t)i]);
    std::vector<int> ids;
    for (int i = 0; i < signals; i++)
      ids.push_back(sched::spawn([&, i]() {
        if (late == i) sched::wait_until(sched::now() + 1000);
        thread_signal_raise(&store[(size_t)i]);
      }));
    for (int i = 0; i < signals; i++) {
      if (late == 3) sched::wait_until(sched::now() + 1000);
      while (!thread_signal_wait(&store[(size_t)i], timed ? 2 : -1)) CK(timed, "an infinite wait timed out");
      thread_signal_term(&store[(size_t)i]);
      CK(!sched::live_in(&store[(size_t)i], sizeof store[0]), "thread_signal_term does not release all it uses");
      memset(&store[(size_t)i], 0x77, sizeof store[0]);
    }
    for (size_t i = 0; i < ids.size(); i++) sched::join(ids[i]);
  });
  CK(!sched::problem(), "after a wait returned and the signal was terminated: %s", sched::problem());
  CK(res == sched::FINISHED, "the threads got stuck");
  const unsigned char* b = (const unsigned char*)store.data();
  for (size_t i = 0; i < sizeof store[0] * store.size(); i++) CK(b[i] == 0x77, "raise() wrote to a signal that the thread that waited had terminated");
  ck::count("signals terminated as soon as the wait returned", (uint64_t)signals);
  ck::eval(sched::interleaving, true);
}
void scenario(ck::Rng& r, int kind, uint64_t n) {
  static const int TIMEOUTS[] = {-1, -1, 0, 0, 1, 2, 17, 500, 999, 1000, 1001, 1500, 2000, 60000, 7654321};
  Scenario sc;
  S = &sc;
  sc.signals = kind == 2 ? 2 : 1 + (int)r.below(2);
  sc.threads = kind == 0 ? 1 : 2 + (int)r.below(3);
  for (int t = 0; t < sc.threads; t++) {
    std::vector<Step> v;
    size_t len = 1 + r.below(5);
    for (size_t i = 0; i < len; i++) {
      Step s;
      s.kind = r.chance(1, 2) ? RAISE : WAIT;
      if (kind == 3) s.kind = t ? WAIT : RAISE;  // one raiser, the others wait
      s.signal = (int)r.below((uint64_t)sc.signals);
      s.timeout = r.chance(1, 8) ? (int)r.below(100000000) : TIMEOUTS[r.below(15)];
      if (kind == 3 && r.chance(1, 2)) s.timeout = -1;
      if (kind == 0 && s.timeout < 0) s.timeout = 5;
      s.delay = r.chance(1, 3) ? r.below(1ull << r.below(33)) : 0;
      v.push_back(s);
    }
    sc.steps.push_back(v);
  }
  lin::History h;
  H = &h;
  int rounds = 3 + (int)r.below(20);
  thread_signal_t store[2];
  memset(store, 0xa5, sizeof store);
  sig = store;
  sched::Options o = lin::options(r, r.chance(3, 4));
  ck::begin_case("schedule %llu, kind %d, seed %llu", (unsigned long long)n, kind, (unsigned long long)o.seed);
  int left = 0;
  sched::Result res = sched::run(o, [&]() {
    for (int i = 0; i < sc.signals; i++) thread_signal_init(&store[i]);
    std::vector<int> ids;
    if (kind == 2) {
      // ping-pong: neither side may ever get stuck
      ids.push_back(sched::spawn([&]() {
        for (int i = 0; i < rounds; i++) {
          while (!thread_signal_wait(&store[0], i % 3 ? -1 : 40)) CK(i % 3 == 0, "an infinite wait timed out");
          left++;
          thread_signal_raise(&store[1]);
        }
      }));
      for (int i = 0; i < rounds; i++) {
        thread_signal_raise(&store[0]);
        if (!thread_signal_wait(&store[1], -1)) ck::fail("an infinite wait timed out");
        CK(left == i + 1, "the other side of a ping-pong is at %d instead of %d", left, i + 1);
      }
    } else {
      for (int t = 1; t < sc.threads; t++) ids.push_back(sched::spawn([t]() { thread_body(t); }));
      thread_body(0);
    }
    for (size_t i = 0; i < ids.size(); i++) sched::join(ids[i]);
    for (int i = 0; i < sc.signals; i++) {
      thread_signal_term(&store[i]);
      CK(!sched::live_in(&store[i], sizeof store[i]), "thread_signal_term does not release all it uses");
    }
  });
  CK(!sched::problem(), "%s", sched::problem());
  CK(res != sched::ENDLESS, "the threads did not finish within %llu steps", (unsigned long long)o.limit);
  if (kind == 2) {
    CK(res == sched::FINISHED, "a ping-pong got stuck in round %d of %d", left, rounds);
    ck::count("ping-pong rounds", (uint64_t)rounds);
    ck::eval(sched::interleaving, rounds > 1);
    return;
  }
  bool waits = false, raises = false;
  for (size_t i = 0; i < h.ops.size(); i++) {
    const lin::Op& op = h.ops[i];
    (op.kind == WAIT ? waits : raises) = true;
    if (op.kind != WAIT) continue;
    if (op.ret == lin::NEVER) {
      if (op.a >= 0) {
        lin::dump(h, NAMES);
        ck::fail("a wait for %lld ms never returned", op.a);
      }
      ck::count("waits left waiting rightly");
      continue;
    }
    uint64_t spent = op.t1 - op.t0;
    if (!op.result) {
      ck::count("waits that returned 0");
      if (op.a < 0 || spent + 20000 < (uint64_t)op.a * 1000000) {
        lin::dump(h, NAMES);
        ck::fail("a wait for %lld ms timed out after %.6f ms", op.a, (double)spent / 1e6);
      }
    } else
      ck::count("waits that returned 1");
    // without clock jumps, time only passes while every thread sleeps
    if ((kind == 0 || !o.hurry_den) && op.a >= 0) {
      if (kind != 0) ck::count("waits of threads among others checked for lateness");
      CK(spent <= (uint64_t)op.a * 1000000 + 1000000, "a wait for %lld ms took %.6f ms", op.a, (double)spent / 1e6);
    }
  }
  for (int i = 0; i < sc.signals; i++) {
    Flag spec = {res == sched::DEADLOCK ? 0 : -1};
    bool stuck = false;
    for (size_t k = 0; k < h.ops.size(); k++) stuck = stuck || (h.ops[k].object == i && h.ops[k].ret == lin::NEVER && h.ops[k].kind == WAIT);
    if (!stuck) spec.end = -1;
    lin::Checker<Flag> c(spec);
    if (!c.run(h.ops, i, 0)) {
      lin::dump(h, NAMES);
      ck::fail("no order of the operations explains what signal %d did%s", i, stuck ? " (a thread is left waiting although the signal is raised)" : "");
    }
    ck::count("linearizations explored", c.explored);
  }
  if (res == sched::DEADLOCK) {
    bool any = false;
    for (size_t k = 0; k < h.ops.size(); k++) {
      any = any || (h.ops[k].ret == lin::NEVER && h.ops[k].kind == WAIT);
      if (h.ops[k].ret == lin::NEVER && h.ops[k].kind == RAISE) ck::fail("raise() got stuck");
    }
    CK(any, "the threads got stuck outside of wait()");
  }
  ck::sample(lin::brief(h, NAMES));
  ck::eval(sched::interleaving, waits && raises && sc.threads > 1);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P25");
  ck::Rng r = ck::rng();
  uint64_t n = ck::st().thorough ? 2000000 : 200000;
  for (uint64_t i = 0; i < n; i++) {
    scenario(r, i % 10 == 0 ? 0 : i % 10 == 1 ? 2 : i % 10 < 5 ? 3 : 1, i);
    if (i % 8 == 0) one_shot(r, i);
  }
  lin::report_stats();
  return ck::finish();
}
