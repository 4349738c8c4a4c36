// The single-producer single-consumer queue under the deterministic scheduler: every history must be explained by a bounded FIFO.
#include "common.h"
#include "lin.h"
#include "libs_thread.h"

namespace {
enum { PRODUCE, CONSUME, COUNT };
const char* const NAMES[] = {"produce", "consume", "count"};
// values are 1, 2, 3... in the order they are produced, so (first value held, next value) is the whole state
struct Fifo {
  typedef std::pair<int, int> State;  // produced, consumed
  int size, end_full, end_empty;
  bool apply(State& s, const lin::Op& o) const {
    int held = s.first - s.second;
    if (o.kind == PRODUCE) {
      if (!o.result) return held == size;
      if (held >= size || o.a != s.first + 1) return false;
      s.first++;
      return true;
    }
    if (o.kind == CONSUME) {
      if (!o.result) return held == 0;
      if (!held || o.result != s.second + 1) return false;
      s.second++;
      return true;
    }
    return o.result == held;
  }
  bool last(const State& s) const {
    int held = s.first - s.second;
    return (!end_full || held == size) && (!end_empty || held == 0);
  }
};
struct Step {
  int timeout;
  uint64_t delay;
  bool count;
};

void scenario(ck::Rng& r, uint64_t n) {
  static const int TIMEOUTS[] = {-1, -1, -1, -1, 0, 0, 1, 3, 50, 999, 1000, 1001, 2500};
  const int size = 1 + (int)r.below(r.chance(1, 8) ? 9 : 4);
  int initial = r.chance(1, 3) ? 0 : (int)r.below((uint64_t)size + 1);
  const int asked = r.chance(1, 12) ? size + 1 + (int)r.below(3) : initial;
  if (asked > size) initial = size;
  const bool counter = r.chance(1, 3);
  const int np = 1 + (int)r.below(10), nc = 1 + (int)r.below(10), nn = counter ? 1 + (int)r.below(4) : 0;
  std::vector<Step> steps[3];
  const bool patient = r.chance(1, 4);
  for (int k = 0; k < 3; k++)
    for (int i = 0; i < (k == 0 ? np : k == 1 ? nc : nn); i++) {
      Step s = {patient ? -1 : TIMEOUTS[r.below(13)], r.chance(1, 5) ? r.below(1ull << r.below(32)) : 0, r.chance(1, 6)};
      steps[k].push_back(s);
    }
  lin::History h;
  thread_queue_t q;
  memset(&q, 0xa5, sizeof q);
  void** values = new void*[(size_t)asked > (size_t)size ? (size_t)asked : (size_t)size];
  for (int i = 0; i < (asked > size ? asked : size); i++) values[i] = i < asked ? (void*)(uintptr_t)(i + 1) : (void*)(uintptr_t)0x777777;
  sched::Options o = lin::options(r, r.chance(3, 4));
  ck::begin_case("schedule %llu, size %d, initially %d, seed %llu", (unsigned long long)n, size, asked, (unsigned long long)o.seed);
  int produced = initial;
  auto producer = [&](int t) {
    for (size_t i = 0; i < steps[0].size(); i++) {
      const Step& s = steps[0][i];
      if (s.delay) sched::wait_until(sched::now() + s.delay);
      if (s.count) {
        size_t k = h.begin(t, 0, COUNT);
        h.end(k, thread_queue_count(&q));
      }
      size_t k = h.begin(t, 0, PRODUCE, produced + 1, s.timeout);
      int res = thread_queue_produce(&q, (void*)(uintptr_t)(produced + 1), s.timeout);
      h.end(k, res != 0);
      if (res) produced++;
    }
  };
  auto consumer = [&](int t) {
    for (size_t i = 0; i < steps[1].size(); i++) {
      const Step& s = steps[1][i];
      if (s.delay) sched::wait_until(sched::now() + s.delay);
      if (s.count) {
        size_t k = h.begin(t, 0, COUNT);
        h.end(k, thread_queue_count(&q));
      }
      size_t k = h.begin(t, 0, CONSUME, 0, s.timeout);
      void* v = thread_queue_consume(&q, s.timeout);
      h.end(k, (long long)(uintptr_t)v);
    }
  };
  const bool swap_roles = r.chance(1, 2);
  sched::Result res = sched::run(o, [&]() {
    thread_queue_init(&q, size, values, asked);
    int a = sched::spawn([&]() { swap_roles ? producer(1) : consumer(1); });
    int b = counter ? sched::spawn([&]() {
      for (size_t i = 0; i < steps[2].size(); i++) {
        size_t k = h.begin(2, 0, COUNT);
        h.end(k, thread_queue_count(&q));
      }
    })
                    : -1;
    swap_roles ? consumer(0) : producer(0);
    sched::join(a);
    if (b >= 0) sched::join(b);
    thread_queue_term(&q);
    CK(!sched::live_in(&q, sizeof q), "thread_queue_term does not release all it uses");
  });
  CK(!sched::problem(), "%s", sched::problem());
  CK(res != sched::ENDLESS, "the threads did not finish within %llu steps", (unsigned long long)o.limit);
  Fifo spec = {size, 0, 0};
  for (size_t i = 0; i < h.ops.size(); i++) {
    const lin::Op& op = h.ops[i];
    if (op.ret == lin::NEVER) {
      if (op.kind == COUNT || op.b >= 0) {
        lin::dump(h, NAMES);
        ck::fail("%s never returned", NAMES[op.kind]);
      }
      (op.kind == PRODUCE ? spec.end_full : spec.end_empty) = 1;
      ck::count(op.kind == PRODUCE ? "producers left waiting rightly" : "consumers left waiting rightly");
      continue;
    }
    if (op.kind == COUNT) {
      ck::count("counts");
      continue;
    }
    // without clock jumps, time only passes while every thread sleeps
    if (!o.hurry_den && op.b >= 0 && op.t1 - op.t0 > (uint64_t)op.b * 1000000 + 1000000) {
      lin::dump(h, NAMES);
      ck::fail("%s with a timeout of %lld ms returned after %.6f ms", NAMES[op.kind], op.b, (double)(op.t1 - op.t0) / 1e6);
    }
    ck::count(op.kind == PRODUCE ? (op.result ? "values produced" : "produce timed out") : op.result ? "values consumed" : "consume timed out");
    if (!op.result) {
      uint64_t spent = op.t1 - op.t0;
      if (op.b < 0 || spent + 20000 < (uint64_t)op.b * 1000000) {
        lin::dump(h, NAMES);
        ck::fail("%s with a timeout of %lld ms gave up after %.6f ms", NAMES[op.kind], op.b, (double)spent / 1e6);
      }
    }
  }
  CK(res == sched::FINISHED || spec.end_full || spec.end_empty, "the threads got stuck outside of the queue");
  lin::Checker<Fifo> c(spec);
  if (!c.run(h.ops, 0, std::make_pair(initial, 0))) {
    lin::dump(h, NAMES);
    ck::fail("no order of the operations explains what a queue of %d that held %d did%s", size, initial, spec.end_full ? " (the producer is left waiting)" : spec.end_empty ? " (the consumer is left waiting)" : "");
  }
  ck::count("linearizations explored", c.explored);
  ck::sample(lin::brief(h, NAMES));
  ck::eval(sched::interleaving, np > 1 && nc > 1);
  delete[] values;
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P27");
  ck::Rng r = ck::rng();
  uint64_t n = ck::st().thorough ? 2000000 : 200000;
  for (uint64_t i = 0; i < n; i++) scenario(r, i);
  lin::report_stats();
  return ck::finish();
}
