// A deterministic scheduler for concurrent code that is compiled with -fsanitize=thread but linked with fibers.cc instead of
// the ThreadSanitizer runtime: every instrumented memory access and atomic operation, and every (wrapped) pthread and time
// function, is a point where the scheduler may switch to another thread. Threads are fibers, time is virtual, and faults
// (spurious wakeups, interrupted sleeps, failing thread creation) are injected. The schedule is a function of the seed.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <cstddef>
#include <cstdint>
#include <functional>

namespace sched {

enum Strategy { RANDOM, PCT };
struct Options {
  uint64_t seed;
  Strategy strategy;
  unsigned switch_den;    // RANDOM: switch at one of this many points
  unsigned changes;       // PCT: number of priority changes
  unsigned horizon;       // PCT: the changes are spread over this many points
  unsigned spurious_den;  // one of this many scheduling decisions wakes a waiting thread for no reason (0: never)
  unsigned hurry_den;     // one of this many scheduling decisions lets the clock jump to the next deadline (0: never)
  unsigned eintr_den;     // one of this many sleeps is interrupted by a signal (0: never)
  unsigned create_den;    // one of this many thread creations fails (0: never)
  uint64_t limit;         // points after which the run counts as stuck in a loop
};
enum Result { FINISHED, DEADLOCK, ENDLESS };

struct Stats {
  uint64_t runs, points, switches, spurious, timeouts, interrupted, jumps, failed_creates, contended;
};
extern Stats stats;
extern uint64_t interleaving;  // a hash of the decisions of the last run

// Runs body in thread 0 until it and all threads it started have ended, or nothing can go on.
Result run(const Options& o, const std::function<void()>& body);
int spawn(const std::function<void()>& body);
void join(int id);
int self();
void point();
uint64_t now();              // virtual nanoseconds since the start of the run
void wait_until(uint64_t t);  // sleeps in virtual time
int unjoined();              // threads of the last run created by pthread_create and neither joined nor detached
const char* problem();       // misuse of the primitives by the code under test in the last run, or null
uint64_t stack_size_of(int id);  // that pthread_create was asked for
const char* name_of(int id);
int live_keys();
int live_in(const void* p, size_t n);  // mutexes and conditions in this memory that were initialized and not destroyed
}  // namespace sched
#endif
