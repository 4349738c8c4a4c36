// An element that is movable, knows which of its instances are alive, and tells a moved-from value apart.
#ifndef VERIF_MOVABLE_H_
#define VERIF_MOVABLE_H_
#include "common.h"
namespace ck {
struct Mv {
  enum : uint32_t { ALIVE = 0x600dcafeu, DEAD = 0xbadc0ffeu };
  enum { MOVED = -77777 };
  static std::unordered_set<const void*>& live() {
    static std::unordered_set<const void*>* l = new std::unordered_set<const void*>;
    return *l;
  }
  struct Stats {
    u64 made, copies, moves, destroyed;
  };
  static Stats& stats() {
    static Stats s = {0, 0, 0, 0};
    return s;
  }
  int* heap;  // owned; null when moved from
  uint32_t canary;
  void birth() {
    if (!live().insert(this).second) fail("a value was constructed over a live one");
    canary = ALIVE;
    stats().made++;
  }
  void check() const {
    if (canary != ALIVE || !live().count(this)) fail("a value that is not alive was used");
  }
  Mv() : heap(new int(0)) { birth(); }
  Mv(int v) : heap(new int(v)) { birth(); }
  Mv(int a, int b) : heap(new int(a * 1000 + b)) { birth(); }
  Mv(const Mv& o) : heap(0) {
    o.check();
    heap = o.heap ? new int(*o.heap) : 0;
    stats().copies++;
    birth();
  }
  Mv(Mv&& o) : heap(0) {
    o.check();
    heap = o.heap;
    o.heap = 0;
    stats().moves++;
    birth();
  }
  Mv& operator=(const Mv& o) {
    check();
    o.check();
    if (this != &o) {
      delete heap;
      heap = o.heap ? new int(*o.heap) : 0;
    }
    stats().copies++;
    return *this;
  }
  Mv& operator=(Mv&& o) {
    check();
    o.check();
    if (this != &o) {
      delete heap;
      heap = o.heap;
      o.heap = 0;
    }
    stats().moves++;
    return *this;
  }
  ~Mv() {
    check();
    if (live().erase(this) != 1) fail("a value was destroyed twice or never constructed");
    canary = DEAD;
    delete heap;
    heap = 0;
    stats().destroyed++;
  }
  int get() const {
    check();
    return heap ? *heap : static_cast<int>(MOVED);
  }
};
inline bool operator==(const Mv& a, const Mv& b) { return a.get() == b.get(); }
inline bool operator!=(const Mv& a, const Mv& b) { return a.get() != b.get(); }
inline bool operator<(const Mv& a, const Mv& b) { return a.get() < b.get(); }
inline bool operator>(const Mv& a, const Mv& b) { return a.get() > b.get(); }
inline bool operator<=(const Mv& a, const Mv& b) { return a.get() <= b.get(); }
inline bool operator>=(const Mv& a, const Mv& b) { return a.get() >= b.get(); }
}  // namespace ck
#endif
