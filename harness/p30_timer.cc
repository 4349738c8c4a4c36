// thread_timer_wait under the deterministic scheduler (virtual time): never early, not late, however often signals interrupt it.
#include "common.h"
#include "lin.h"
#include "libs_thread.h"

namespace {
uint64_t amount(ck::Rng& r) {
  static const uint64_t V[] = {0, 1, 2, 999, 1000, 999999, 1000000, 999999999, 1000000000, 1000000001, 1999999999, 2000000000, 2147483647, 2147483648ull,
                               4294967295ull, 4294967296ull, 5000000000ull, 3600000000000ull, 86400000000000ull};
  if (r.chance(1, 2)) return V[r.below(sizeof V / sizeof *V)];
  uint64_t v = r.next() >> (14 + r.below(50));
  if (r.chance(1, 6)) v = v / 1000000000ull * 1000000000ull + r.below(3) - 1;
  return v > (1ull << 60) ? 1 : v;
}
void scenario(ck::Rng& r, uint64_t n) {
  const int threads = 1 + (int)r.below(3);
  std::vector<std::vector<uint64_t>> steps;
  for (int t = 0; t < threads; t++) {
    std::vector<uint64_t> v;
    for (size_t i = 0; i < 1 + r.below(5); i++) v.push_back(amount(r));
    steps.push_back(v);
  }
  sched::Options o = lin::options(r, true);
  o.hurry_den = 0;
  o.eintr_den = r.chance(1, 4) ? 0 : 1 + (unsigned)r.below(3);
  if (o.eintr_den == 1) o.eintr_den = 2;
  ck::begin_case("schedule %llu, %d threads, interruptions %u, seed %llu", (unsigned long long)n, threads, o.eintr_den, (unsigned long long)o.seed);
  ck::u64 h = 0;
  auto work = [&](int t) {
    thread_timer_t timer;
    memset(&timer, 0xa5, sizeof timer);
    thread_timer_init(&timer);
    for (size_t i = 0; i < steps[(size_t)t].size(); i++) {
      const uint64_t ns = steps[(size_t)t][i], start = sched::now();
      ck::op("thread %d waits %llu ns", t, (unsigned long long)ns);
      thread_timer_wait(&timer, ns);
      const uint64_t spent = sched::now() - start;
      CK(spent >= ns, "a wait for %llu ns returned after %llu ns", (unsigned long long)ns, (unsigned long long)spent);
      CK(spent <= ns + 1000000, "a wait for %llu ns took %llu ns", (unsigned long long)ns, (unsigned long long)spent);
      h = ck::mix(h, ns);
      ck::count("waits");
      ck::maximum("longest wait in virtual seconds", (double)spent / 1e9);
    }
    thread_timer_term(&timer);
  };
  sched::Result res = sched::run(o, [&]() {
    std::vector<int> ids;
    for (int t = 1; t < threads; t++) ids.push_back(sched::spawn([&work, t]() { work(t); }));
    work(0);
    for (size_t i = 0; i < ids.size(); i++) sched::join(ids[i]);
  });
  CK(!sched::problem(), "%s", sched::problem());
  CK(res == sched::FINISHED, "thread_timer_wait did not return");
  ck::sample(ck::last_ops(3));
  ck::eval(ck::mix(h, sched::interleaving), true);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P30");
  ck::Rng r = ck::rng();
  uint64_t n = ck::st().thorough ? 1000000 : 80000;
  for (uint64_t i = 0; i < n; i++) scenario(r, i);
  lin::report_stats();
  return ck::finish();
}
