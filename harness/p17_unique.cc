// unique_ptr: exclusive ownership, every owned object deleted exactly once, at the right moment, by the right deleter.
#include "common.h"
#include "nanomemory.h"
#include "nanoutility.h"

namespace {
struct Obj {
  int id;
  int* heap;
  static std::map<int, int>& alive() {
    static std::map<int, int>* m = new std::map<int, int>;
    return *m;
  }
  static int next;
  Obj() : id(next++), heap(new int(id)) { alive()[id] = 1; }
  virtual ~Obj() {
    CK(*heap == id, "an object was destroyed twice");
    CK(alive().erase(id) == 1, "object %d was destroyed twice", id);
    delete heap;
  }
  Obj(const Obj&) = delete;
};
int Obj::next = 1;
struct Derived : Obj {
  int more[4];
  Derived() { more[0] = id; }
  ~Derived() { CK(more[0] == id, "the derived part of an object was destroyed twice"); }
};

struct Event {
  int deleter, obj;
};
std::vector<Event>& events() {
  static std::vector<Event>* e = new std::vector<Event>;
  return *e;
}
// A deleter with state, that tells who deleted what.
struct Del {
  int id;
  Del() : id(-1) {}
  explicit Del(int i) : id(i) {}
  template <class T>
  void operator()(T* p) const {
    Event e = {id, p->id};
    events().push_back(e);
    delete p;
  }
};
struct ArrDel {
  int id;
  ArrDel() : id(-1) {}
  explicit ArrDel(int i) : id(i) {}
  void operator()(Obj* p) const {
    Event e = {id, p->id};
    events().push_back(e);
    delete[] p;
  }
};
Del refs[4] = {Del(100), Del(101), Del(102), Del(103)};

enum { NS = 5, BASE0 = 1 };
struct Slot {
  int obj;  // 0: none. For an array the id of its first element
  int del;
  int len;
};

template <class P>
struct Traits;  // how to make objects and deleters of each kind of unique_ptr
typedef nanostl::unique_ptr<Obj> Plain;
typedef nanostl::unique_ptr<Obj, Del> Stateful;
typedef nanostl::unique_ptr<Obj[]> Array;
typedef nanostl::unique_ptr<Obj[], ArrDel> SArray;
template <>
struct Traits<Plain> {
  enum { array = 0, state = 0, conv = 1 };
  static Plain make(Obj* p, int) { return Plain(p); }
  static int did(Plain&) { return 0; }
  typedef nanostl::unique_ptr<Derived> Other;
  static Other other(Derived* p, int) { return Other(p); }
  static Obj& at(Plain& p, int) { return *p; }
  static const char* name() { return "unique_ptr<T>"; }
};
template <>
struct Traits<Stateful> {
  enum { array = 0, state = 1, conv = 1 };
  static Stateful make(Obj* p, int d) { return Stateful(p, Del(d)); }
  static int did(Stateful& p) { return p.get_deleter().id; }
  typedef nanostl::unique_ptr<Derived, Del> Other;
  static Other other(Derived* p, int d) { return Other(p, Del(d)); }
  static Obj& at(Stateful& p, int) { return *p; }
  static const char* name() { return "unique_ptr<T, stateful>"; }
};
template <>
struct Traits<Array> {
  enum { array = 1, state = 0, conv = 0 };
  static Array make(Obj* p, int) { return Array(p); }
  static int did(Array&) { return 0; }
  typedef Array Other;
  static Other other(Derived*, int) { return Array(); }
  static Obj& at(Array& p, int i) { return p[(size_t)i]; }
  static const char* name() { return "unique_ptr<T[]>"; }
};
template <>
struct Traits<SArray> {
  enum { array = 1, state = 1, conv = 0 };
  static SArray make(Obj* p, int d) { return SArray(p, ArrDel(d)); }
  static int did(SArray& p) { return p.get_deleter().id; }
  typedef SArray Other;
  static Other other(Derived*, int) { return SArray(); }
  static Obj& at(SArray& p, int i) { return p[(size_t)i]; }
  static const char* name() { return "unique_ptr<T[], stateful>"; }
};

template <class P>
void convert(P& p, int d, int* made, bool construct) {
  Derived* q = new Derived;
  *made = q->id;
  typename Traits<P>::Other o = Traits<P>::other(q, d);
  if (construct) {
    P tmp(nanostl::move(o));
    p = nanostl::move(tmp);
    CK(!tmp, "a moved-from unique_ptr is not empty");
  } else {
    p = nanostl::move(o);
  }
  CK(!o && o.get() == nullptr, "a moved-from unique_ptr is not empty");
}
template <class P, int conv>
struct Conv {
  static void go(P& p, int d, int* made, bool c) { convert(p, d, made, c); }
};
template <class P>
struct Conv<P, 0> {
  static void go(P&, int, int*, bool) {}
};

template <class P>
void run(ck::Rng& r, uint64_t casenum) {
  typedef Traits<P> T;
  ck::begin_case("%s case %llu", T::name(), (unsigned long long)casenum);
  const size_t bytes0 = ck::heap_bytes();
  const size_t alive0 = Obj::alive().size();
  uint64_t h = ck::mix(0x17, (uint64_t)T::array * 2 + T::state);
  unsigned kinds = 0;
  {
    std::vector<int> loose;  // released: owned by the test
    std::vector<std::pair<Obj*, int> > loosep;
    P* s = new P[NS];
    Slot m[NS];
    for (int i = 0; i < NS; i++) m[i].obj = 0, m[i].del = T::state ? -1 : 0, m[i].len = 0;
    std::map<int, int> want;  // objects that have to be alive
    int nd = 1;
    const unsigned steps = 3 + (unsigned)r.below(25);
    for (unsigned k = 0; k < steps; k++) {
      const int i = (int)r.below(NS), j = (int)r.below(NS);
      const unsigned op = (unsigned)r.below(11);
      h = ck::mix(h, op * 64 + (unsigned)i * 8 + (unsigned)j);
      kinds |= 1u << op;
      events().clear();
      // what has to be deleted in this step
      int gone = 0, gonelen = 0, by = 0;
      const int len = T::array ? 1 + (int)r.below(4) : 1;
      Obj* fresh = 0;
      if (op == 0 || op == 1) fresh = T::array ? new Obj[(size_t)len] : new Obj;
      switch (op) {
        case 0: {  // reset(p)
          ck::op("s%d.reset(new) len %d", i, len);
          gone = m[i].obj, gonelen = m[i].len, by = m[i].del;
          m[i].obj = fresh->id, m[i].len = len;
          s[i].reset(fresh);
          break;
        }
        case 1: {  // move assignment from a temporary
          const int d = nd++;
          ck::op("s%d = unique_ptr(new, deleter %d)", i, d);
          gone = m[i].obj, gonelen = m[i].len, by = m[i].del;
          m[i].obj = fresh->id, m[i].len = len, m[i].del = T::state ? d : 0;
          s[i] = T::make(fresh, d);
          break;
        }
        case 2: {  // move assignment, also to itself
          ck::op("s%d = move(s%d)", i, j);
          if (i != j) {
            gone = m[i].obj, gonelen = m[i].len, by = m[i].del;
            m[i] = m[j];
            m[j].obj = 0, m[j].len = 0;
          }
          P& from = s[j];
          s[i] = nanostl::move(from);
          break;
        }
        case 3: {
          ck::op("swap(s%d, s%d)", i, j);
          std::swap(m[i], m[j]);
          if (r.chance(1, 2)) s[i].swap(s[j]);
          else nanostl::swap(s[i], s[j]);
          break;
        }
        case 4: {
          ck::op("s%d.reset()", i);
          gone = m[i].obj, gonelen = m[i].len, by = m[i].del;
          m[i].obj = 0, m[i].len = 0;
          if (r.chance(1, 2)) s[i].reset();
          else s[i] = nullptr;
          break;
        }
        case 5: {
          ck::op("s%d.release()", i);
          Obj* p = s[i].release();
          CK((p ? p->id : 0) == m[i].obj, "release() returns object %d instead of %d", p ? p->id : 0, m[i].obj);
          if (p) loosep.push_back(std::make_pair(p, m[i].len));
          m[i].obj = 0, m[i].len = 0;
          break;
        }
        case 6: {  // move construction, then destruction
          ck::op("{ unique_ptr t(move(s%d)); }", i);
          gone = m[i].obj, gonelen = m[i].len, by = m[i].del;
          m[i].obj = 0, m[i].len = 0;
          {
            P t(nanostl::move(s[i]));
            CK((t ? t.get()->id : 0) == gone, "move construction lost the object");
            CK(!s[i], "a moved-from unique_ptr is not empty");
            CK(events().empty(), "move construction deleted an object");
          }
          break;
        }
        case 7: {  // from a unique_ptr to a derived class
          if (!T::conv) break;
          const int d = nd++;
          ck::op("s%d = unique_ptr<Derived>(new, deleter %d)", i, d);
          gone = m[i].obj, gonelen = m[i].len, by = m[i].del;
          int made = 0;
          Conv<P, T::conv>::go(s[i], d, &made, r.chance(1, 2));
          m[i].obj = made, m[i].len = 1, m[i].del = T::state ? d : 0;
          break;
        }
        case 8: {  // back in
          if (loosep.empty()) break;
          std::pair<Obj*, int> p = loosep.back();
          loosep.pop_back();
          ck::op("s%d.reset(released %d)", i, p.first->id);
          gone = m[i].obj, gonelen = m[i].len, by = m[i].del;
          m[i].obj = p.first->id, m[i].len = p.second;
          s[i].reset(p.first);
          break;
        }
        case 9: {  // comparisons
          ck::op("compare s%d s%d", i, j);
          CK((s[i] == s[j]) == (s[i].get() == s[j].get()), "==");
          CK((s[i] != s[j]) == (s[i].get() != s[j].get()), "!=");
          CK((s[i] < s[j]) == (s[i].get() < s[j].get()), "<");
          CK((s[i] > s[j]) == (s[i].get() > s[j].get()), ">");
          CK((s[i] <= s[j]) == (s[i].get() <= s[j].get()), "<=");
          CK((s[i] >= s[j]) == (s[i].get() >= s[j].get()), ">=");
          CK((s[i] == nullptr) == !m[i].obj && (nullptr == s[i]) == !m[i].obj, "== nullptr");
          CK((s[i] != nullptr) == !!m[i].obj && (nullptr != s[i]) == !!m[i].obj, "!= nullptr");
          CK(!(s[i] < nullptr) && (nullptr < s[i]) == !!m[i].obj && (s[i] > nullptr) == !!m[i].obj && !(nullptr > s[i]), "order with nullptr");
          CK((s[i] <= nullptr) == !m[i].obj && nullptr <= s[i] && s[i] >= nullptr && (nullptr >= s[i]) == !m[i].obj, "order with nullptr");
          break;
        }
        default: {  // use
          ck::op("use s%d", i);
          if (m[i].obj)
            for (int e = 0; e < m[i].len; e++) CK(T::at(s[i], e).id == m[i].obj + e && *T::at(s[i], e).heap == m[i].obj + e, "the owned object is another one");
          break;
        }
      }
      // the deletions of this step
      if (gone) {
        if (T::state) {
          CK(events().size() == 1, "%zu deletions instead of one", events().size());
          CK(events()[0].obj == gone, "object %d was deleted instead of %d", events()[0].obj, gone);
          CK(events()[0].deleter == by, "object %d was deleted by deleter %d instead of %d", gone, events()[0].deleter, by);
        }
        for (int e = 0; e < gonelen; e++) CK(!Obj::alive().count(gone + e), "object %d is still alive after its owner gave it up", gone + e);
        ck::count("objects deleted by their owner");
      } else {
        CK(events().empty(), "an object was deleted that is still owned");
      }
      size_t n = alive0;
      for (int q = 0; q < NS; q++) {
        CK((s[q].get() ? s[q].get()->id : 0) == m[q].obj, "s%d owns object %d instead of %d", q, s[q].get() ? s[q].get()->id : 0, m[q].obj);
        CK((bool)s[q] == (m[q].obj != 0), "operator bool of s%d", q);
        if (T::state) CK(T::did(s[q]) == m[q].del, "s%d has deleter %d instead of %d", q, T::did(s[q]), m[q].del);
        for (int e = 0; e < m[q].len; e++) CK(Obj::alive().count(m[q].obj + e), "object %d was deleted while it is owned", m[q].obj + e);
        n += (size_t)m[q].len;
      }
      for (size_t q = 0; q < loosep.size(); q++) n += (size_t)loosep[q].second;
      CK(Obj::alive().size() == n, "%zu objects are alive instead of %zu", Obj::alive().size(), n);
    }
    delete[] s;
    for (size_t q = 0; q < loosep.size(); q++) {
      if (T::array) delete[] loosep[q].first;
      else delete loosep[q].first;
    }
    events().clear();
    events().shrink_to_fit();
  }
  CK(Obj::alive().size() == alive0, "%zu objects leaked", Obj::alive().size() - alive0);
  CK(ck::heap_bytes() == bytes0 || casenum < 8, "%zd bytes leaked", (ssize_t)(ck::heap_bytes() - bytes0));
  if (casenum < 5) ck::sample(ck::last_ops());
  ck::eval(h, __builtin_popcount(kinds) >= 4);
}

// A deleter held by reference; a deleter that looks at its owner; move from a function; null.
struct Spy {
  nanostl::unique_ptr<Obj, Spy>** owner;
  int* seen;
  Spy() : owner(0), seen(0) {}
  Spy(nanostl::unique_ptr<Obj, Spy>** o, int* s) : owner(o), seen(s) {}
  void operator()(Obj* p) const {
    // while an object is deleted by reset its owner already has the new pointer
    if (owner && *owner) *seen = (*owner)->get() == p ? -1 : (*owner)->get() ? (*owner)->get()->id : 0;
    delete p;
  }
};
void fixed() {
  ck::begin_case("fixed scenarios");
  {
    typedef nanostl::unique_ptr<Obj, Del&> R;
    events().clear();
    int a, b;
    {
      Obj* x = new Obj;
      a = x->id;
      R p(x, refs[1]);
      CK(&p.get_deleter() == &refs[1], "a deleter held by reference is another object");
      R q(nanostl::move(p));
      CK(&q.get_deleter() == &refs[1] && !p && q.get() == x, "move with a deleter held by reference");
      CK(q->id == a && (*q).id == a, "-> and *");
    }
    CK(events().size() == 1 && events()[0].deleter == 101 && events()[0].obj == a, "the deleter held by reference was not used once");
    {
      Obj* x = new Obj;
      b = x->id;
      const Del d(7);
      nanostl::unique_ptr<Obj, const Del&> p(x, d);
    }
    CK(events().size() == 2 && events()[1].deleter == 7 && events()[1].obj == b, "the const deleter held by reference was not used once");
  }
  {
    nanostl::unique_ptr<Obj, Spy>* owner = 0;
    int seen = -5;
    {
      nanostl::unique_ptr<Obj, Spy> p(new Obj, Spy(&owner, &seen));
      owner = &p;
      Obj* n = new Obj;
      p.reset(n);
      CK(seen == n->id, "while the old object is deleted its owner has %d instead of the new object %d", seen, n->id);
      p.reset();
      CK(seen == 0, "while the old object is deleted its owner still has %d", seen);
      owner = 0;
    }
  }
  {
    nanostl::unique_ptr<int> p;
    CK(!p && p.get() == nullptr && p == nullptr, "a default unique_ptr is not empty");
    p.reset();
    nanostl::unique_ptr<int> q(nullptr);
    CK(!q, "a unique_ptr of nullptr is not empty");
    q = nullptr;
    p = nanostl::move(q);
    nanostl::unique_ptr<int[]> a(new int[3]);
    a[0] = 1, a[1] = 2, a[2] = 3;
    CK(a[0] + a[1] * a[2] == 7, "array elements");
    nanostl::unique_ptr<const Obj> c(nanostl::unique_ptr<Obj>(new Obj));
    CK(c->id > 0, "conversion to const");
  }
  ck::count("fixed scenarios");
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P17");
  ck::Rng r = ck::rng();
  fixed();
  const uint64_t N = ck::st().thorough ? 1500000 : 12000;
  for (uint64_t i = 0; i < N; i++) switch (i % 4) {
      case 0: run<Plain>(r, i); break;
      case 1: run<Stateful>(r, i); break;
      case 2: run<Array>(r, i); break;
      default: run<SArray>(r, i); break;
    }
  return ck::finish();
}
