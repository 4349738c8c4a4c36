// Histories of concurrent operations and a linearizability checker (Wing and Gong's search, with memoization).
#ifndef VERIF_LIN_H_
#define VERIF_LIN_H_
#include "common.h"
#include "fibers.h"

namespace lin {
typedef uint64_t u64;
struct Op {
  int thread, kind, object;
  long long a, b, result;
  u64 call, ret;  // positions in the history; ret is NEVER while pending
  u64 t0, t1;     // virtual time
};
enum : u64 { NEVER = ~0ull };

struct History {
  std::vector<Op> ops;
  u64 clock;
  History() : clock(0) {}
  size_t begin(int thread, int object, int kind, long long a = 0, long long b = 0) {
    Op o = {thread, kind, object, a, b, 0, ++clock, NEVER, sched::now(), 0};
    ops.push_back(o);
    return ops.size() - 1;
  }
  void end(size_t i, long long result) {
    ops[i].result = result;
    ops[i].ret = ++clock;
    ops[i].t1 = sched::now();
  }
};

// Spec: State, bool apply(State&, const Op&) (false: the result is impossible in this state), bool last(State) for the end.
// Operations that are still pending have had no effect.
template <class Spec>
struct Checker {
  std::vector<Op> ops;
  Spec spec;
  std::set<std::pair<u64, typename Spec::State>> seen;
  u64 explored;
  explicit Checker(const Spec& s) : spec(s), explored(0) {}
  bool dfs(u64 done, const typename Spec::State& st) {
    explored++;
    u64 first = NEVER;
    bool any = false;
    for (size_t i = 0; i < ops.size(); i++)
      if (!(done >> i & 1)) {
        any = true;
        if (ops[i].ret < first) first = ops[i].ret;
      }
    if (!any) return spec.last(st);
    if (!seen.insert(std::make_pair(done, st)).second) return false;
    for (size_t i = 0; i < ops.size(); i++)
      if (!(done >> i & 1) && ops[i].call < first) {
        typename Spec::State n = st;
        if (spec.apply(n, ops[i]) && dfs(done | 1ull << i, n)) return true;
      }
    return false;
  }
  bool run(const std::vector<Op>& all, int object, const typename Spec::State& init) {
    ops.clear();
    seen.clear();
    for (size_t i = 0; i < all.size(); i++)
      if (all[i].object == object && all[i].ret != NEVER) ops.push_back(all[i]);
    if (ops.size() > 63) ck::harness_error("history too long");
    return dfs(0, init);
  }
};

inline void dump(const History& h, const char* const* names) {
  for (size_t i = 0; i < h.ops.size(); i++) {
    const Op& o = h.ops[i];
    fprintf(stderr, "  thread %d [%llu, %lld] %s(object %d, %lld, %lld) -> %lld   t=%.6f..%.6f ms\n", o.thread, (unsigned long long)o.call,
            o.ret == NEVER ? -1 : (long long)o.ret, names[o.kind], o.object, o.a, o.b, o.result, (double)o.t0 / 1e6, (double)o.t1 / 1e6);
  }
}
inline std::string brief(const History& h, const char* const* names) {
  std::string r;
  for (size_t i = 0; i < h.ops.size() && r.size() < 500; i++) {
    char b[128];
    snprintf(b, sizeof b, "%st%d:%s(%lld)%s%lld", i ? " " : "", h.ops[i].thread, names[h.ops[i].kind], h.ops[i].a, h.ops[i].ret == NEVER ? " pending " : "=", h.ops[i].result);
    r += b;
  }
  return r;
}

// Schedules: a strategy and faults chosen by the seed.
inline sched::Options options(ck::Rng& r, bool faults) {
  sched::Options o;
  o.seed = r.next();
  o.strategy = r.chance(1, 3) ? sched::PCT : sched::RANDOM;
  static const unsigned den[] = {1, 2, 3, 6, 15, 40};
  o.switch_den = den[r.below(6)];
  o.changes = 1 + (unsigned)r.below(5);
  o.horizon = 20u << r.below(6);
  o.spurious_den = faults && r.chance(1, 2) ? 3 + (unsigned)r.below(20) : 0;
  o.hurry_den = faults && r.chance(1, 2) ? 2 + (unsigned)r.below(40) : 0;
  o.eintr_den = faults ? 2 : 0;
  o.create_den = 0;
  o.limit = 400000;
  return o;
}
inline void report_stats() {
  ck::count("schedules run", sched::stats.runs);
  ck::count("scheduling points", sched::stats.points);
  ck::count("switches between threads", sched::stats.switches);
  ck::count("spurious wakeups injected", sched::stats.spurious);
  ck::count("waits that timed out", sched::stats.timeouts);
  ck::count("sleeps interrupted", sched::stats.interrupted);
  ck::count("clock jumps injected", sched::stats.jumps);
  ck::count("thread creations failed", sched::stats.failed_creates);
  ck::count("locks that had to wait", sched::stats.contended);
}
}  // namespace lin
#endif
