// optional<T> is either empty or holds exactly one value: every operation against a model, with lifetimes.
#include "movable.h"
#include "nanofunctional.h"
#include "nanooptional.h"
#include "nanostring.h"
#include "nanovector.h"

namespace {
using ck::Mv;
enum { NS = 4 };
struct Model {
  bool has;
  int v;
  Model() : has(false), v(0) {}
};

// How to make and read values of each type. MOVES: a moved-from value is recognisable (and checked).
template <class T>
struct Tr;
template <>
struct Tr<int> {
  enum { MOVES = 0 };
  static int make(int v) { return v; }
  static int get(const int& t) { return t; }
  typedef short Other;
  static Other other(int v) { return (short)v; }
};
template <>
struct Tr<Mv> {
  enum { MOVES = 1 };
  static Mv make(int v) { return Mv(v); }
  static int get(const Mv& t) { return t.get(); }
  typedef int Other;
  static Other other(int v) { return v; }
};
typedef nanostl::string NS_;
template <>
struct Tr<NS_> {
  enum { MOVES = 0 };
  static NS_ make(int v) { return NS_(ck_str(v).c_str()); }
  static std::string ck_str(int v) { return std::to_string(v) + std::string((size_t)(v & 31), 'x'); }
  static int get(const NS_& t) {
    int v = atoi(t.c_str());
    std::string e = ck_str(v);
    CK(t.size() == e.size() && !memcmp(t.c_str(), e.c_str(), e.size() + 1), "the string in an optional changed");
    return v;
  }
  typedef const char* Other;
  static Other other(int v) {
    static char keep[4][80];
    static unsigned k;
    snprintf(keep[++k % 4], 80, "%s", ck_str(v).c_str());
    return keep[k % 4];
  }
};
struct alignas(32) Wide {
  int v;
  char c;
  double pad[5];
  Wide(int x = 0) : v(x), c((char)x) {
    for (int i = 0; i < 5; i++) pad[i] = x + i;
  }
  int get() const {
    CK((uintptr_t)this % 32 == 0, "the value in an optional is not aligned");
    for (int i = 0; i < 5; i++) CK(pad[i] == v + i, "the value in an optional changed");
    CK(c == (char)v, "the value in an optional changed");
    return v;
  }
};
bool operator==(const Wide& a, const Wide& b) { return a.get() == b.get(); }
bool operator!=(const Wide& a, const Wide& b) { return a.get() != b.get(); }
bool operator<(const Wide& a, const Wide& b) { return a.get() < b.get(); }
bool operator>(const Wide& a, const Wide& b) { return a.get() > b.get(); }
bool operator<=(const Wide& a, const Wide& b) { return a.get() <= b.get(); }
bool operator>=(const Wide& a, const Wide& b) { return a.get() >= b.get(); }
template <>
struct Tr<Wide> {
  enum { MOVES = 0 };
  static Wide make(int v) { return Wide(v); }
  static int get(const Wide& t) { return t.get(); }
  typedef int Other;
  static Other other(int v) { return v; }
};

// A value whose copies and moves throw when a fuse has burnt down.
struct Thrown {};
int fuse = -1;
void tick() {
  if (fuse >= 0 && fuse-- == 0) throw Thrown();
}
template <bool MT>  // do moves throw?
struct BombT {
  Mv m;
  BombT() {}
  BombT(int v) : m(v) {}
  BombT(const BombT& o) : m((tick(), o.m)) {}
  BombT(BombT&& o) noexcept(!MT) : m((MT ? tick() : (void)0, static_cast<Mv&&>(o.m))) {}
  BombT& operator=(const BombT& o) {
    tick();
    m = o.m;
    return *this;
  }
  BombT& operator=(BombT&& o) noexcept(!MT) {
    if (MT) tick();
    m = static_cast<Mv&&>(o.m);
    return *this;
  }
};
template <bool MT>
bool operator==(const BombT<MT>& a, const BombT<MT>& b) { return a.m == b.m; }
template <bool MT>
bool operator!=(const BombT<MT>& a, const BombT<MT>& b) { return a.m != b.m; }
template <bool MT>
bool operator<(const BombT<MT>& a, const BombT<MT>& b) { return a.m < b.m; }
template <bool MT>
bool operator>(const BombT<MT>& a, const BombT<MT>& b) { return a.m > b.m; }
template <bool MT>
bool operator<=(const BombT<MT>& a, const BombT<MT>& b) { return a.m <= b.m; }
template <bool MT>
bool operator>=(const BombT<MT>& a, const BombT<MT>& b) { return a.m >= b.m; }
template <bool MT>
struct Tr<BombT<MT> > {
  typedef BombT<MT> Bomb;
  enum { MOVES = 1 };
  static Bomb make(int v) {
    int f = fuse;
    fuse = -1;
    Bomb b(v);
    fuse = f;
    return b;
  }
  static int get(const Bomb& t) { return t.m.get(); }
  typedef int Other;
  static Other other(int v) { return v; }
};

// values are ordered like their integers except strings, whose own order is used
template <class T>
int order(int a, int b) {
  return a < b ? -1 : a > b;
}
template <>
int order<NS_>(int a, int b) {
  std::string x = Tr<NS_>::ck_str(a), y = Tr<NS_>::ck_str(b);
  return x < y ? -1 : x > y;
}

template <class T>
void sixcmp(bool eq, bool ne, bool lt, bool gt, bool le, bool ge, int want, const char* what) {
  CK(eq == (want == 0) && ne == (want != 0) && lt == (want < 0) && gt == (want > 0) && le == (want <= 0) && ge == (want >= 0),
     "%s: == %d != %d < %d > %d <= %d >= %d, the values compare as %d", what, eq, ne, lt, gt, le, ge, want);
}

template <class T>
void same(const nanostl::optional<T>& o, const Model& m, const char* what) {
  CK(o.has_value() == m.has && (bool)o == m.has, "%s: the optional %s a value", what, m.has ? "lost" : "got");
  if (m.has) {
    int v = Tr<T>::get(*o);
    CK(v == m.v, "%s: the value is %d instead of %d", what, v, m.v);
    CK(&*o == &o.value() && &*o == o.operator->(), "%s: *, value() and -> disagree", what);
  }
}

template <class T>
void with_value(const nanostl::optional<T>& a, const T& t, int wv) {
  sixcmp<T>(a == t, a != t, a < t, a > t, a <= t, a >= t, wv, "optional and value");
  sixcmp<T>(t == a, t != a, t < a, t > a, t <= a, t >= a, -wv, "value and optional");
}
void with_value(const nanostl::optional<NS_>& a, const NS_& t, int wv) {  // string has no <= and >=
  sixcmp<NS_>(a == t, a != t, a < t, a > t, wv <= 0, wv >= 0, wv, "optional and value");
  sixcmp<NS_>(t == a, t != a, t < a, t > a, wv >= 0, wv <= 0, -wv, "value and optional");
}

template <class T>
void run(ck::Rng& r, const char* tn, uint64_t id, bool throwing = false) {
  typedef nanostl::optional<T> O;
  typedef nanostl::optional<typename Tr<T>::Other> Oth;
  size_t heap0 = ck::heap_bytes();
  size_t live0 = Mv::live().size();
  ck::u64 h = id;
  unsigned kinds = 0;
  {
    O* o[NS];
    Model m[NS];
    // in the middle of bytes that are not zero, so that what is not initialised shows, and that stay as they are
    struct alignas(64) Room {
      unsigned char before[64];
      alignas(64) unsigned char in[sizeof(O)];
      unsigned char after[64];
    };
    Room room[NS];
    memset((void*)room, 0xa5, sizeof room);
    for (int i = 0; i < NS; i++) o[i] = new ((void*)room[i].in) O();
    unsigned steps = 4 + (unsigned)r.below(40);
    for (unsigned s = 0; s < steps; s++) {
      unsigned i = (unsigned)r.below(NS), j = (unsigned)r.below(NS), k = (unsigned)r.below(24);
      int v = (int)r.range(-6, 6);
      if (r.chance(1, 10)) v = (int)r.range(-30000, 30000);
      h = ck::mix(h, k * 64 + i * 8 + j + ((ck::u64)(unsigned)v << 16));
      kinds |= 1u << k;
      ck::op("%u i=%u j=%u v=%d", k, i, j, v);
      Model before[NS];
      for (int q = 0; q < NS; q++) before[q] = m[q];
      if ((k >= 2 && k <= 7) || (k >= 9 && k <= 11) || k == 14 || k == 15 || k == 18 || k == 19) fuse = throwing && r.chance(1, 3) ? (int)r.below(4) : -1;
      try {
      switch (k) {
        case 0: *o[i] = nonstd::nullopt; m[i].has = false; break;
        case 1: o[i]->reset(); m[i].has = false; break;
        case 2: {
          T t(Tr<T>::make(v));
          *o[i] = t;
          CK(Tr<T>::get(t) == v, "assigning a value changed it");
          m[i].has = true, m[i].v = v;
          break;
        }
        case 3: {
          T t(Tr<T>::make(v));
          *o[i] = static_cast<T&&>(t);
          m[i].has = true, m[i].v = v;
          break;
        }
        case 4:
        case 5: *o[i] = *o[j]; m[i] = m[j]; break;
        case 6: {
          *o[i] = static_cast<O&&>(*o[j]);
          m[i] = m[j];
          if (i != j && m[j].has) {
            if (Tr<T>::MOVES) {
              m[j].v = Mv::MOVED;
            } else {
              *o[j] = Tr<T>::make(v), m[j].v = v;  // a moved-from value is whatever it is
            }
          }
          break;
        }
        case 7: {
          T& t = o[i]->emplace(Tr<T>::make(v));
          CK(&t == &**o[i], "emplace returned something else");
          m[i].has = true, m[i].v = v;
          break;
        }
        case 8: {
          T& t = o[i]->emplace();
          CK(&t == &**o[i], "emplace returned something else");
          t = Tr<T>::make(v);
          m[i].has = true, m[i].v = v;
          break;
        }
        case 9: o[i]->swap(*o[j]); std::swap(m[i], m[j]); break;
        case 10: {
          using nanostl::swap;
          swap(*o[i], *o[j]);
          std::swap(m[i], m[j]);
          break;
        }
        case 11: {
          O c(*o[i]);
          fuse = -1;
          same(c, m[i], "copy");
          same(*o[i], m[i], "copied");
          if (c.has_value()) *c = Tr<T>::make(v);
          same(*o[i], m[i], "the original of a changed copy");
          break;
        }
        case 12: {
          O c(static_cast<O&&>(*o[i]));
          same(c, m[i], "moved");
          if (m[i].has && Tr<T>::MOVES) {
            CK(o[i]->has_value() && Tr<T>::get(**o[i]) == Mv::MOVED, "a moved-from optional should hold the moved-from value");
          } else {
            CK(o[i]->has_value() == m[i].has, "moving from an optional changed whether it holds a value");
          }
          *o[i] = static_cast<O&&>(c);
          break;
        }
        case 13: {
          Oth t;
          bool has = r.chance(3, 4);
          if (has) t = Tr<T>::other(v);
          O c(t);
          Model mc;
          mc.has = has, mc.v = v;
          same(c, mc, "converted copy");
          CK(t.has_value() == has, "converting changed the source");
          break;
        }
        case 14: {
          Oth t;
          bool has = r.chance(3, 4);
          if (has) t = Tr<T>::other(v);
          *o[i] = t;
          m[i].has = has, m[i].v = v;
          break;
        }
        case 15: {
          Oth t;
          bool has = r.chance(3, 4);
          if (has) t = Tr<T>::other(v);
          *o[i] = static_cast<Oth&&>(t);
          m[i].has = has, m[i].v = v;
          break;
        }
        case 16: {
          int got = Tr<T>::get(static_cast<const O&>(*o[i]).value_or(Tr<T>::make(v)));
          CK(got == (m[i].has ? m[i].v : v), "value_or gave %d", got);
          break;
        }
        case 17: {
          O c(*o[i]);
          int got = Tr<T>::get(static_cast<O&&>(c).value_or(Tr<T>::make(v)));
          CK(got == (m[i].has ? m[i].v : v), "value_or of a temporary gave %d", got);
          break;
        }
        case 18:
          if (m[i].has) {
            **o[i] = Tr<T>::make(v);
            m[i].v = v;
          }
          break;
        case 19:
          if (m[i].has) {
            o[i]->value() = Tr<T>::make(v);
            m[i].v = v;
          }
          break;
        case 20: {
          O a(nonstd::nullopt);
          CK(!a.has_value(), "an optional made from nullopt has a value");
          O b(Tr<T>::make(v));
          CK(b.has_value() && Tr<T>::get(*b) == v, "an optional made from a value holds something else");
          T t(Tr<T>::make(v));
          const T& ct = t;
          O c(ct);
          CK(c.has_value() && Tr<T>::get(*c) == v && Tr<T>::get(t) == v, "an optional made from a value holds something else");
          O d(nonstd::make_optional(Tr<T>::make(v)));
          CK(d.has_value() && Tr<T>::get(*d) == v, "make_optional made something else");
          break;
        }
        case 21: {  // comparisons with another optional, with nullopt and with a value
          const O &a = *o[i], &b = *o[j];
          int want = !m[i].has ? (m[j].has ? -1 : 0) : !m[j].has ? 1 : order<T>(m[i].v, m[j].v);
          sixcmp<T>(a == b, a != b, a < b, a > b, a <= b, a >= b, want, "optional and optional");
          int wn = m[i].has ? 1 : 0;
          sixcmp<T>(a == nonstd::nullopt, a != nonstd::nullopt, a < nonstd::nullopt, a > nonstd::nullopt, a <= nonstd::nullopt,
                    a >= nonstd::nullopt, wn, "optional and nullopt");
          sixcmp<T>(nonstd::nullopt == a, nonstd::nullopt != a, nonstd::nullopt < a, nonstd::nullopt > a, nonstd::nullopt <= a,
                    nonstd::nullopt >= a, -wn, "nullopt and optional");
          const T t(Tr<T>::make(v));
          int wv = m[i].has ? order<T>(m[i].v, v) : -1;
          with_value(a, t, wv);
          break;
        }
        case 22: {  // in place, from several arguments or none
          O c(nonstd::in_place, Tr<T>::make(v));
          Model mc;
          mc.has = true, mc.v = v;
          same(c, mc, "in place");
          *o[i] = c;
          m[i] = mc;
          break;
        }
        case 23: {  // taking the value out
          if (m[i].has) {
            T t(*static_cast<O&&>(*o[i]));
            CK(Tr<T>::get(t) == m[i].v, "the value that was taken out is %d", Tr<T>::get(t));
            if (Tr<T>::MOVES) {
              m[i].v = Mv::MOVED;
            } else {
              *o[i] = Tr<T>::make(v), m[i].v = v;
            }
          }
          break;
        }
      }
      fuse = -1;
      } catch (const Thrown&) {
        // What is not assigned to is as it was; what is holds a value that is alive (the old one, or what a move left of it) or none.
        fuse = -1;
        ck::count("exceptions thrown by a value");
        for (int q = 0; q < NS; q++) {
          m[q] = before[q];
          bool swapped = (k == 9 || k == 10) && (q == (int)i || q == (int)j);
          if (swapped && o[q]->has_value()) {
            int now = Tr<T>::get(**o[q]);
            CK((before[i].has && now == before[i].v) || (before[j].has && now == before[j].v) || now == Mv::MOVED, "a swap that threw left %d", now);
            m[q].has = true, m[q].v = now;
          } else if (k == 7 && q == (int)i) {
            m[q].has = o[q]->has_value();  // emplace destroys what there was
            CK(!m[q].has, "an emplace that threw left a value");
          } else if (swapped) {
            m[q].has = false;
          }
        }
      }
      for (int q = 0; q < NS; q++) same(*o[q], m[q], "after the operation");
      if (Tr<T>::MOVES) {
        size_t n = 0;
        for (int q = 0; q < NS; q++) n += m[q].has;
        CK(Mv::live().size() - live0 == n, "%zu values are alive, %zu optionals hold one", Mv::live().size() - live0, n);
      }
    }
    for (int i = 0; i < NS; i++) {
      o[i]->~O();
      for (int k = 0; k < 64; k++) CK(room[i].before[k] == 0xa5 && room[i].after[k] == 0xa5, "an optional wrote outside of itself");
    }
  }
  CK(Mv::live().size() == live0, "values outlived their optional");
  size_t heap1 = ck::heap_bytes();
  CK(heap1 == heap0, "%zu bytes are in use after the optionals are gone, %zu before", heap1, heap0);
  ck::count(tn);
  if (id % 4001 == 0) ck::sample(ck::last_ops(5));
  ck::eval(h, __builtin_popcount(kinds) >= 4);
}
// optional<const T>: made, copied, moved from, emptied and filled again, but never assigned through.
template <class T>
void run_const(ck::Rng& r, const char* tn, uint64_t id) {
  typedef nanostl::optional<const T> O;
  size_t heap0 = ck::heap_bytes(), live0 = Mv::live().size();
  ck::u64 h = id;
  {
    O a;
    Model m;
    unsigned steps = 2 + (unsigned)r.below(10);
    for (unsigned s = 0; s < steps; s++) {
      int v = (int)r.range(-6, 6);
      unsigned k = (unsigned)r.below(6);
      h = ck::mix(h, k * 64 + (unsigned)(v + 32));
      ck::op("%u v=%d", k, v);
      switch (k) {
        case 0: a.reset(); m.has = false; break;
        case 1: a = nonstd::nullopt; m.has = false; break;
        case 2: a.emplace(Tr<T>::make(v)); m.has = true, m.v = v; break;
        case 3: {
          O b(Tr<T>::make(v)), c(nonstd::in_place, Tr<T>::make(v));
          CK(b.has_value() && Tr<T>::get(*b) == v && c.has_value() && Tr<T>::get(c.value()) == v, "an optional of a const value made from %d", v);
          break;
        }
        case 4: {
          O b(a), c(static_cast<O&&>(b));
          CK(b.has_value() == m.has && c.has_value() == m.has && (!m.has || (Tr<T>::get(*b) == m.v && Tr<T>::get(*c.operator->()) == m.v)), "the copies of an optional of a const value");
          break;
        }
        case 5: CK(Tr<T>::get(a.value_or(Tr<T>::make(v))) == (m.has ? m.v : v), "value_or"); break;
      }
      CK(a.has_value() == m.has && (!m.has || Tr<T>::get(*a) == m.v), "an optional of a const value holds something else");
      if (Tr<T>::MOVES) CK(Mv::live().size() - live0 == (m.has ? 1u : 0u), "%zu values are alive", Mv::live().size() - live0);
    }
  }
  CK(Mv::live().size() == live0 && ck::heap_bytes() == heap0, "something is left of an optional of a const value");
  ck::count(tn);
  ck::eval(h, true);
}
template <class T>
void hashes(const T* v, int n) {
  nanostl::hash<nanostl::optional<T> > h;
  for (int i = 0; i < n; i++) {
    nanostl::optional<T> a(v[i]), b;
    b = v[i];
    CK(h(a) == nanostl::hash<T>()(v[i]), "the hash of an optional is not that of its value");
    CK(a == b && h(a) == h(b), "equal optionals hash differently");
  }
  CK(h(nanostl::optional<T>()) == h(nonstd::nullopt), "empty optionals hash differently");
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P18");
  Mv::live().reserve(4096);
  ck::Rng r = ck::rng();
  ck::count("exceptions thrown by a value", 0);
  try {  // the runtime allocates on the first exception
    throw Thrown();
  } catch (const Thrown&) {
  }
  const unsigned N = ck::st().thorough ? 1500000 : 12000;
  for (unsigned i = 0; i < N; i++) {
    static const char* names[] = {"int", "tracked", "string", "over-aligned", "throwing", "copies throw"};
    ck::begin_case("%s case %u", names[i % 6], i);
    switch (i % 6) {
      case 0: run<int>(r, names[0], i); break;
      case 1: run<Mv>(r, names[1], i); break;
      case 2: run<NS_>(r, names[2], i); break;
      case 3: run<Wide>(r, names[3], i); break;
      case 4: run<BombT<true> >(r, names[4], i, true); break;
      case 5: run<BombT<false> >(r, names[5], i, true); break;
    }
  }
  for (unsigned i = 0; i < N / 20; i++) {
    static const char* names[] = {"const int", "const tracked", "const string", "const over-aligned"};
    ck::begin_case("%s case %u", names[i % 4], i);
    switch (i % 4) {
      case 0: run_const<int>(r, names[0], i); break;
      case 1: run_const<Mv>(r, names[1], i); break;
      case 2: run_const<NS_>(r, names[2], i); break;
      case 3: run_const<Wide>(r, names[3], i); break;
    }
  }
  for (unsigned i = 0; i < 50; i++) {
    ck::begin_case("hashes %u", i);
    const int a[3] = {(int)r.range(-9, 9), (int)r.next(), 0};
    const unsigned long long b[3] = {r.next(), r.next() >> 40, 0};
    const double c[4] = {1.5 * a[0], (double)a[1], 0.0, -0.0};
    hashes(a, 3);
    hashes(b, 3);
    hashes(c, 4);
    nanostl::hash<nanostl::optional<double> > h;
    CK(h(nanostl::optional<double>(0.0)) == h(nanostl::optional<double>(-0.0)), "optionals of 0 and -0 hash differently");
    ck::count("optionals hashed", 11);
    ck::eval(ck::mix(ck::mix((ck::u64)a[0], (ck::u64)a[1]), b[0]), true);
  }
  ck::count("values made", Mv::stats().made);
  ck::count("values moved", Mv::stats().moves);
  return ck::finish();
}
