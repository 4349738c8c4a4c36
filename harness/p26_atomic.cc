// Atomics under the deterministic scheduler: every history must be explained by operations that happen one at a time on an int (that
// wraps) or a pointer.
#include "common.h"
#include "lin.h"
#include "libs_thread.h"

namespace {
enum { LOAD, STORE, INC, DEC, ADD, SUB, SWAP, CAS, PLOAD, PSTORE, PSWAP, PCAS };
const char* const NAMES[] = {"load", "store", "inc", "dec", "add", "sub", "swap", "compare_and_swap", "ptr_load", "ptr_store", "ptr_swap", "ptr_compare_and_swap"};
int wrap(long long v) { return (int)(unsigned)(unsigned long long)v; }
struct Cell {
  typedef long long State;
  bool apply(State& s, const lin::Op& o) const {
    State old = s;
    switch (o.kind) {
      case STORE:
      case PSTORE: s = o.a; return true;
      case INC: s = wrap(s + 1); break;
      case DEC: s = wrap(s - 1); break;
      case ADD: s = wrap(s + o.a); break;
      case SUB: s = wrap(s - o.a); break;
      case SWAP:
      case PSWAP: s = o.a; break;
      case CAS:
      case PCAS:
        if (s == o.a) s = o.b;
        break;
    }
    return o.result == old;
  }
  bool last(State s) const { return s == end; }
  State end;
};
struct Step {
  int kind, object;
  long long a, b;
};
thread_atomic_int_t ints[2];
thread_atomic_ptr_t ptrs[2];

long long perform(const Step& s) {
  thread_atomic_int_t* i = &ints[s.object & 1];
  thread_atomic_ptr_t* p = &ptrs[s.object & 1];
  switch (s.kind) {
    case LOAD: return thread_atomic_int_load(i);
    case STORE: thread_atomic_int_store(i, (int)s.a); return 0;
    case INC: return thread_atomic_int_inc(i);
    case DEC: return thread_atomic_int_dec(i);
    case ADD: return thread_atomic_int_add(i, (int)s.a);
    case SUB: return thread_atomic_int_sub(i, (int)s.a);
    case SWAP: return thread_atomic_int_swap(i, (int)s.a);
    case CAS: return thread_atomic_int_compare_and_swap(i, (int)s.a, (int)s.b);
    case PLOAD: return (long long)(uintptr_t)thread_atomic_ptr_load(p);
    case PSTORE: thread_atomic_ptr_store(p, (void*)(uintptr_t)s.a); return 0;
    case PSWAP: return (long long)(uintptr_t)thread_atomic_ptr_swap(p, (void*)(uintptr_t)s.a);
    default: return (long long)(uintptr_t)thread_atomic_ptr_compare_and_swap(p, (void*)(uintptr_t)s.a, (void*)(uintptr_t)s.b);
  }
}
int pick_int(ck::Rng& r, int around) {
  switch (r.below(6)) {
    case 0: return wrap((long long)around + r.range(-2, 2));
    case 1: return (int)(unsigned)r.next();
    case 2: return r.chance(1, 2) ? INT_MAX : INT_MIN;
    case 3: return around;
    default: return (int)r.range(-3, 3);
  }
}
long long pick_ptr(ck::Rng& r, long long around) {
  switch (r.below(4)) {
    case 0: return around;
    case 1: return (long long)r.next();
    case 2: return around ^ (1ll << r.below(63));
    default: return (long long)r.below(4);
  }
}
void scenario(ck::Rng& r, uint64_t n) {
  const int threads = n % 8 == 0 ? 1 : 2 + (int)r.below(3);
  long long first[4];
  for (int i = 0; i < 2; i++) first[i] = pick_int(r, 0);
  for (int i = 2; i < 4; i++) first[i] = pick_ptr(r, 1ll << 40);
  const bool single = r.chance(2, 3);
  const int only = (int)r.below(4);
  std::vector<std::vector<Step>> steps;
  unsigned kinds = 0;
  for (int t = 0; t < threads; t++) {
    std::vector<Step> v;
    size_t len = threads == 1 ? 1 + r.below(20) : 1 + r.below(5);
    for (size_t i = 0; i < len; i++) {
      Step s;
      s.object = single ? only : (int)r.below(4);
      if (s.object < 2) {
        s.kind = (int)r.below(8);
        s.a = pick_int(r, (int)first[s.object]);
        s.b = pick_int(r, (int)first[s.object]);
      } else {
        s.kind = PLOAD + (int)r.below(4);
        s.a = pick_ptr(r, first[s.object]);
        s.b = pick_ptr(r, first[s.object]);
      }
      kinds |= 1u << s.kind;
      v.push_back(s);
    }
    steps.push_back(v);
  }
  lin::History h;
  sched::Options o = lin::options(r, false);
  if (o.switch_den > 6) o.switch_den = 3;
  o.horizon = 30;
  ck::begin_case("schedule %llu, %d threads, seed %llu", (unsigned long long)n, threads, (unsigned long long)o.seed);
  long long end[4];
  sched::Result res = sched::run(o, [&]() {
    memset(ints, 0xa5, sizeof ints);
    memset(ptrs, 0x5a, sizeof ptrs);
    for (int i = 0; i < 2; i++) thread_atomic_int_store(&ints[i], (int)first[i]);
    for (int i = 2; i < 4; i++) thread_atomic_ptr_store(&ptrs[i - 2], (void*)(uintptr_t)first[i]);
    auto work = [&](int t) {
      const std::vector<Step>& s = steps[(size_t)t];
      for (size_t i = 0; i < s.size(); i++) {
        size_t k = h.begin(t, s[i].object, s[i].kind, s[i].a, s[i].b);
        h.end(k, perform(s[i]));
      }
    };
    std::vector<int> ids;
    for (int t = 1; t < threads; t++) ids.push_back(sched::spawn([&work, t]() { work(t); }));
    work(0);
    for (size_t i = 0; i < ids.size(); i++) sched::join(ids[i]);
    for (int i = 0; i < 2; i++) end[i] = thread_atomic_int_load(&ints[i]);
    for (int i = 2; i < 4; i++) end[i] = (long long)(uintptr_t)thread_atomic_ptr_load(&ptrs[i - 2]);
  });
  CK(!sched::problem(), "%s", sched::problem());
  CK(res == sched::FINISHED, "atomic operations did not finish");
  for (int i = 0; i < 4; i++) {
    Cell spec;
    spec.end = end[i];
    lin::Checker<Cell> c(spec);
    if (!c.run(h.ops, i, first[i])) {
      lin::dump(h, NAMES);
      ck::fail("no order of the operations on atomic %d explains the results and the change from %lld to %lld", i, first[i], end[i]);
    }
    ck::count("linearizations explored", c.explored);
  }
  ck::count("atomic operations", h.ops.size());
  ck::sample(lin::brief(h, NAMES));
  ck::u64 hh = sched::interleaving;
  for (size_t i = 0; i < h.ops.size(); i++) hh = ck::mix(ck::mix(hh, (uint64_t)h.ops[i].kind), (uint64_t)h.ops[i].a);
  ck::eval(hh, threads > 1 && (kinds & (kinds - 1)));
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P26");
  ck::Rng r = ck::rng();
  uint64_t n = ck::st().thorough ? 3000000 : 250000;
  for (uint64_t i = 0; i < n; i++) scenario(r, i);
  lin::report_stats();
  return ck::finish();
}
