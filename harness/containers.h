// Random operation sequences over the containers, each step compared with a model.
#ifndef VERIF_CONTAINERS_H_
#define VERIF_CONTAINERS_H_
#include "common.h"

#include <iterator>
#include <list>
#include <set>

#include "nanostring.h"
#include "nanomap.h"
#include "nanovalarray.h"
#include "nanovector.h"

namespace ck {

// ---- element types: an id (int) <-> an element; id 0 is the value-initialized element.

template <class T>
struct El {  // arithmetic types
  static T make(int id) { return static_cast<T>(id); }
  static bool same(const T& t, int id) { return t == static_cast<T>(id); }
  static const char* name() { return sizeof(T) == 1 ? "char" : sizeof(T) == 4 ? "int" : "8 bytes"; }
};
template <>
struct El<Tracked> {
  static Tracked make(int id) { return Tracked(id); }
  static bool same(const Tracked& t, int id) { return t.get() == id; }
  static const char* name() { return "Tracked"; }
};
struct Pod {
  char pad;
  long a[5];
  short tail;
};
template <>
struct El<Pod> {
  static Pod make(int id) {
    Pod p = Pod();
    p.pad = (char)id;
    for (int i = 0; i < 5; i++) p.a[i] = (long)id * (i + 1);
    p.tail = (short)id;
    return p;
  }
  static bool same(const Pod& p, int id) {
    if (p.pad != (char)id || p.tail != (short)id) return false;
    for (int i = 0; i < 5; i++)
      if (p.a[i] != (long)id * (i + 1)) return false;
    return true;
  }
  static const char* name() { return "Pod"; }
};
template <>
struct El<nanostl::string> {
  static std::string ref(int id) {
    std::string s;
    for (int i = 0; i < id % 7; i++) s += (char)('a' + (id + i) % 26);
    return s + (id ? std::to_string(id) : "");
  }
  static nanostl::string make(int id) { return nanostl::string(ref(id).c_str()); }
  static bool same(const nanostl::string& s, int id) {
    std::string r = ref(id);
    return s.size() == r.size() && memcmp(s.c_str(), r.c_str(), r.size() + 1) == 0;
  }
  static const char* name() { return "string"; }
};
template <class U>
struct El<nanostl::vector<U> > {
  static nanostl::vector<U> make(int id) {
    nanostl::vector<U> v;
    for (int i = 0; i < (id % 5 ? id % 5 : id ? 5 : 0); i++) v.push_back(El<U>::make(id + i));
    return v;
  }
  static bool same(const nanostl::vector<U>& v, int id) {
    int n = id % 5 ? id % 5 : id ? 5 : 0;
    if (v.size() != (nanostl::size_type)n) return false;
    for (int i = 0; i < n; i++)
      if (!El<U>::same(v[i], id + i)) return false;
    return true;
  }
  static const char* name() { return "vector"; }
};

struct CaseStats {
  u64 h;
  unsigned kinds;
  size_t maxsize;
  CaseStats() : h(1), kinds(0), maxsize(0) {}
  void note(unsigned kind, u64 a, u64 b) {
    h = mix(mix(mix(h, kind), a), b);
    kinds |= 1u << kind;
  }
  bool nontrivial() const { return __builtin_popcount(kinds) >= 4 && maxsize >= 2; }
};

inline int new_id(Rng& r) { return (int)(r.chance(1, 8) ? 0 : r.below(4) ? 1 + r.below(100000) : r.below(10)); }
// Some cases work with lengths around 2^16 and 2^17.
inline bool& long_case() {
  static bool b = false;
  return b;
}
inline size_t limit(size_t n) { return long_case() ? 400000 : n; }
inline size_t new_size(Rng& r) {
  if (long_case() && r.chance(2, 3)) {
    count("long lengths");
    switch (r.below(4)) {
      case 0: return 65536 + r.below(3) - 1;
      case 1: return 131072 + r.below(3) - 1;
      case 2: return r.below(100000);
      default: return 32768 + r.below(3) - 1;
    }
  }
  switch (r.below(6)) {
    case 0: return r.below(3);
    case 1: return r.below(70);
    case 2: return ((size_t)1 << r.below(7)) + r.below(3) - 1;
    default: return r.below(12);
  }
}

inline void eval(const CaseStats& c) { eval(c.h, c.nontrivial()); }

// ---- a sequence container (vector or valarray) against std::vector<int> of ids

template <class C, class T>
void seq_check(const C& c, const std::vector<int>& m, const char* what) {
  CK(c.size() == m.size(), "%s: size() is %llu instead of %zu", what, (unsigned long long)c.size(), m.size());
  CK(c.empty() == m.empty(), "%s: empty() is %d for %zu elements", what, (int)c.empty(), m.size());
  CK(c.capacity() >= c.size(), "%s: capacity() %llu < size() %llu", what, (unsigned long long)c.capacity(),
     (unsigned long long)c.size());
  for (size_t i = 0; i < m.size(); i++)
    CK(El<T>::same(c[i], m[i]), "%s: element %zu of %zu is not the one the model has (id %d)", what, i, m.size(), m[i]);
  CK((size_t)(c.end() - c.begin()) == m.size(), "%s: end() - begin() is not size()", what);
  size_t k = 0;
  for (typename C::const_iterator p = c.begin(); p != c.end(); ++p, ++k)
    CK(El<T>::same(*p, m[k]), "%s: iteration differs from the model at %zu", what, k);
}

template <class C, class T>
struct IsVector {
  enum { value = 0 };
};
template <class T, class A>
struct IsVector<nanostl::vector<T, A>, T> {
  enum { value = 1 };
};

template <class C, class T, bool V>
struct VecOnly {
  static void push_back(C&, const T&) {}
  static void pop_back(C&) {}
  static T& at(C& c, size_t i) { return c[i]; }
  static const T& cat(const C& c, size_t i) { return c[i]; }
  static C* sized(size_t n) { return new C((nanostl::size_type)n); }
};
template <class C, class T>
struct VecOnly<C, T, true> {
  static void push_back(C& c, const T& t) { c.push_back(t); }
  static void pop_back(C& c) { c.pop_back(); }
  static T& at(C& c, size_t i) { return c.at(i); }
  static const T& cat(const C& c, size_t i) { return c.at(i); }
  static C* sized(size_t n) {
    C* c = new C;
    c->resize(n);
    return c;
  }
};

// An allocator that accounts for what it gave: everything comes back once, with the number it was asked for.
template <class T>
struct Counted : nanostl::allocator<T> {
  static std::map<T*, nanostl::size_type>& given() {
    static std::map<T*, nanostl::size_type>* g = new std::map<T*, nanostl::size_type>;
    return *g;
  }
  T* allocate(nanostl::size_type n, const void* hint = 0) {
    T* p = nanostl::allocator<T>::allocate(n, hint);
    if (p) CK(given().insert(std::make_pair(p, n)).second, "the allocator gave the same memory twice");
    count("allocations through an allocator of the user");
    return p;
  }
  void deallocate(T* p, nanostl::size_type n) {
    if (p) {
      typename std::map<T*, nanostl::size_type>::iterator i = given().find(p);
      CK(i != given().end(), "memory is given back that the allocator did not give");
      CK(i->second == n, "memory for %llu elements is given back as for %llu", (unsigned long long)i->second, (unsigned long long)n);
      given().erase(i);
    }
    nanostl::allocator<T>::deallocate(p, n);
  }
};

// An input iterator: what was passed once can not be read again.
template <class T>
struct OnePass {
  typedef std::input_iterator_tag iterator_category;
  typedef T value_type;
  typedef std::ptrdiff_t difference_type;
  typedef const T* pointer;
  typedef const T& reference;
  const T* p;
  static const T*& at() {
    static const T* a = 0;
    return a;
  }
  explicit OnePass(const T* q) : p(q) {}
  const T& operator*() const {
    CK(!at() || p >= at(), "an element of an input range is read after a later one");
    return *p;
  }
  OnePass& operator++() {
    at() = ++p;
    return *this;
  }
  OnePass operator++(int) {
    OnePass t(*this);
    ++*this;
    return t;
  }
  bool operator==(const OnePass& o) const { return p == o.p; }
  bool operator!=(const OnePass& o) const { return p != o.p; }
};

template <class C, class T>
CaseStats run_seq(Rng& r, unsigned nops) {
  const bool V = IsVector<C, T>::value;
  typedef VecOnly<C, T, IsVector<C, T>::value> O;
  const int N = 3;
  C* c[N];
  std::vector<int> m[N];
  CaseStats cs;
  size_t live0 = Tracked::live().size();
  for (int i = 0; i < N; i++) c[i] = new C;
  for (unsigned step = 0; step < nops; step++) {
    int k = (int)r.below(N), o = (int)r.below(N);
    C& x = *c[k];
    std::vector<int>& mx = m[k];
    const T* data0 = x.data();
    unsigned long long cap0 = x.capacity();
    bool grows_only = false;
    unsigned kind = (unsigned)r.below(16);
    if (mx.size() > limit(300) && kind <= 3) kind = 7;
    switch (kind) {
      case 0: case 1: case 2: {
        int id = new_id(r);
        if (V) {
          op("c%d.push_back(%d)", k, id);
          O::push_back(x, El<T>::make(id));
          mx.push_back(id);
          grows_only = true;
        } else {
          op("c%d.resize(%zu); back = %d", k, mx.size() + 1, id);
          x.resize(mx.size() + 1);
          x[mx.size()] = El<T>::make(id);
          mx.push_back(id);
          grows_only = true;
        }
        break;
      }
      case 3:
        if (!mx.empty()) {
          size_t i = r.below(mx.size());
          if (V) {
            op("c%d.push_back(c%d[%zu]) (size %zu, capacity %llu)", k, k, i, mx.size(), cap0);
            int id = mx[i];
            O::push_back(x, x[i]);
            mx.push_back(id);
            grows_only = true;
          } else {
            op("c%d[%zu] = c%d[%zu]", k, (size_t)0, k, i);
            x[0] = x[i];
            mx[0] = mx[i];
          }
        }
        break;
      case 4: {
        if (mx.empty()) break;
        if (V) {
          op("c%d.pop_back()", k);
          O::pop_back(x);
          mx.pop_back();
        }
        break;
      }
      case 5: case 6: {
        size_t n = r.chance(1, 5) ? 0 : new_size(r);
        op("c%d.resize(%zu) (size %zu, capacity %llu)", k, n, mx.size(), cap0);
        grows_only = n >= mx.size();
        x.resize(n);
        mx.resize(n, 0);
        break;
      }
      case 7:
        op("c%d.clear()", k);
        x.clear();
        mx.clear();
        break;
      case 8: case 9: {
        if (mx.empty()) break;
        size_t i = r.chance(1, 4) ? mx.size() - 1 : r.chance(1, 4) ? 0 : r.below(mx.size());
        op("c%d.erase(begin() + %zu) (size %zu)", k, i, mx.size());
        typename C::iterator it = x.erase(x.begin() + i);
        mx.erase(mx.begin() + (long)i);
        CK(it == x.begin() + i, "erase did not return the position after the removed element");
        break;
      }
      case 10: {
        op("c%d = c%d", k, o);
        x = *c[o];
        std::vector<int> t = m[o];
        mx = t;
        break;
      }
      case 11: {
        op("c%d.swap(c%d)", k, o);
        x.swap(*c[o]);
        mx.swap(m[o]);
        break;
      }
      case 12: {
        size_t n = new_size(r);
        std::vector<int> ids;
        std::list<T> l;
        std::vector<T> a;
        for (size_t i = 0; i < n; i++) {
          ids.push_back(new_id(r));
          l.push_back(El<T>::make(ids.back()));
          a.push_back(El<T>::make(ids.back()));
        }
        const u64 way = r.below(3);
        if (way == 0) {
          op("c%d.assign(%zu elements, list iterators)", k, n);
          x.assign(l.begin(), l.end());
        } else if (way == 1) {
          op("c%d.assign(%zu elements, input iterators)", k, n);
          x.assign(OnePass<T>(a.data()), OnePass<T>(a.data() + n));
          OnePass<T>::at() = 0;
        } else {
          op("c%d.assign(%zu elements, pointers)", k, n);
          x.assign(a.data(), a.data() + n);
        }
        mx = ids;
        break;
      }
      case 13: {
        op("c%d: copied to a temporary, changed, destroyed", k);
        C t(x);
        std::vector<int> mt = mx;
        seq_check<C, T>(t, mt, "copy");
        t.resize(mt.size() + 1);
        mt.push_back(0);
        for (size_t i = 0; i < mt.size(); i++) {
          mt[i] = new_id(r);
          t[i] = El<T>::make(mt[i]);
        }
        seq_check<C, T>(t, mt, "modified copy");
        seq_check<C, T>(x, mx, "source of a modified copy");
        break;
      }
      case 14: {
        if (mx.empty()) break;
        size_t i = r.below(mx.size());
        int id = new_id(r);
        op("c%d[%zu] = %d", k, i, id);
        switch (r.below(3)) {
          case 0: x[i] = El<T>::make(id); break;
          case 1: O::at(x, i) = El<T>::make(id); break;
          default: *(x.data() + i) = El<T>::make(id);
        }
        mx[i] = id;
        const C& cx = x;
        CK(El<T>::same(O::cat(cx, i), id), "at()/operator[] does not see the assignment");
        CK(&x[i] == x.data() + i && &x[i] == &*(x.begin() + i) && &O::at(x, i) == &x[i],
           "data(), begin(), at() and operator[] disagree");
        break;
      }
      case 15: {
        op("delete c%d, new", k);
        delete c[k];
        size_t n = r.chance(1, 2) ? 0 : new_size(r);
        c[k] = O::sized(n);
        mx.assign(n, 0);
        break;
      }
    }
    cs.note(kind, (u64)k * 16 + (u64)o, mx.size());
    if (mx.size() > cs.maxsize) cs.maxsize = mx.size();
    if (kind != 15) {
      C& y = *c[k];
      if (grows_only && mx.size() <= cap0)
        CK(y.data() == data0, "growing to %zu elements within the capacity of %llu moved the elements", mx.size(), cap0);
      seq_check<C, T>(y, mx, "after the operation");
    } else {
      seq_check<C, T>(*c[k], mx, "new container");
    }
    if (o != k) seq_check<C, T>(*c[o], m[o], "other container");
    count("operations");
  }
  for (int i = 0; i < N; i++) {
    seq_check<C, T>(*c[i], m[i], "at the end");
    delete c[i];
  }
  CK(Tracked::live().size() == live0, "%zu elements outlived their containers", Tracked::live().size() - live0);
  cs.h = mix(cs.h, hashmem(El<T>::name(), strlen(El<T>::name())));
  return cs;
}

// ---- string against std::string

inline std::string rnd_bytes(Rng& r, size_t n, bool nul) {
  std::string s;
  for (size_t i = 0; i < n; i++) {
    unsigned char ch;
    switch (r.below(4)) {
      case 0: ch = (unsigned char)r.below(256); break;
      case 1: ch = (unsigned char)(0x7e + r.below(4)); break;
      case 2: ch = (unsigned char)(nul ? r.below(2) : 'a'); break;
      default: ch = (unsigned char)('a' + r.below(3));
    }
    if (!nul && !ch) ch = 'z';
    s += (char)ch;
  }
  return s;
}
inline std::string show(const std::string& s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < 40; i++) {
    unsigned char c = (unsigned char)s[i];
    if (c < 0x20 || c >= 0x7f || c == '\\' || c == '"') {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return r + (s.size() > 40 ? "...\"" : "\"");
}
inline void str_check(const nanostl::string& s, const std::string& m, const char* what) {
  CK(s.size() == m.size() && s.length() == m.size(), "%s: size()/length() %llu/%llu instead of %zu", what,
     (unsigned long long)s.size(), (unsigned long long)s.length(), m.size());
  CK(s.empty() == m.empty(), "%s: empty() is %d for %zu bytes", what, (int)s.empty(), m.size());
  const char* p = s.c_str();
  CK(memcmp(p, m.data(), m.size()) == 0, "%s: the contents differ, expected %s", what, show(m).c_str());
  CK(p[m.size()] == 0, "%s: c_str() is not terminated", what);
  for (size_t i = 0; i < m.size(); i++)
    CK(s[i] == m[i] && s.at(i) == m[i], "%s: byte %zu differs", what, i);
  if (m.find('\0') == std::string::npos) CK(strlen(p) == m.size(), "%s: strlen(c_str()) is not size()", what);
}

inline nanostl::string make_str(Rng& r, const std::string& m, const char** how) {
  // the buffers end where the arguments say, so that reading further is caught
  char* exact = new char[m.size() ? m.size() : 1];
  memcpy(exact, m.data(), m.size());
  char* z = new char[m.size() + 1];
  memcpy(z, m.c_str(), m.size() + 1);
  unsigned w = (unsigned)r.below(m.find('\0') == std::string::npos ? 3 : 2);
  *how = w == 0 ? "string(first, last)" : w == 1 ? "string(s, count)" : "string(s)";
  nanostl::string s = w == 0   ? nanostl::string(exact, exact + m.size())
                      : w == 1 ? nanostl::string(exact, (nanostl::string::size_type)m.size())
                               : nanostl::string(z);
  memset(exact, 'X', m.size());
  memset(z, 'Y', m.size());
  delete[] exact;
  delete[] z;
  return s;
}

inline CaseStats run_string(Rng& r, unsigned nops) {
  const int N = 3;
  nanostl::string* s[N];
  std::string m[N];
  CaseStats cs;
  for (int i = 0; i < N; i++) {
    s[i] = new nanostl::string;
    str_check(*s[i], m[i], "default constructed");
  }
  for (unsigned step = 0; step < nops; step++) {
    int k = (int)r.below(N), o = (int)r.below(N);
    nanostl::string& x = *s[k];
    std::string& mx = m[k];
    unsigned kind = (unsigned)r.below(14);
    if (mx.size() > limit(400) && (kind == 2 || kind == 3 || kind == 4)) kind = 7;
    switch (kind) {
      case 0: case 1: {
        std::string b = rnd_bytes(r, new_size(r), r.chance(1, 3));
        const char* how;
        nanostl::string t = make_str(r, b, &how);
        op("s%d = %s %s", k, how, show(b).c_str());
        str_check(t, b, how);
        x = t;
        mx = b;
        break;
      }
      case 2: {
        op("s%d += s%d", k, o);
        nanostl::string& ret = (x += *s[o]);
        std::string t = m[o];
        mx += t;
        CK(&ret == &x, "operator+= does not return *this");
        break;
      }
      case 3: {
        op("s%d += s%d", k, k);
        x += x;
        std::string t = mx;
        mx += t;
        break;
      }
      case 4: {
        op("s%d = s%d + s%d", k, k, o);
        nanostl::string t = x + *s[o];
        str_check(x, mx, "left operand of +");
        str_check(*s[o], m[o], "right operand of +");
        str_check(t, mx + m[o], "result of +");
        std::string mt = mx + m[o];
        x = t;
        mx = mt;
        break;
      }
      case 5: {
        op("s%d = s%d", k, o);
        x = *s[o];
        std::string t = m[o];
        mx = t;
        break;
      }
      case 6: {
        op("s%d copied, the copy changed", k);
        nanostl::string t(x);
        str_check(t, mx, "copy");
        t += nanostl::string("!");
        str_check(t, mx + "!", "changed copy");
        break;
      }
      case 7:
        op("s%d.clear()", k);
        x.clear();
        mx.clear();
        break;
      case 8: case 9: {
        if (mx.empty()) break;
        size_t i = r.chance(1, 3) ? mx.size() - 1 : r.below(mx.size());
        op("s%d.erase(%zu) (size %zu)", k, i, mx.size());
        char* base = &x[0];
        nanostl::string::iterator it = x.erase(base + i);
        mx.erase(i, 1);
        CK(it == &x[0] + i, "erase did not return the position after the removed byte");
        break;
      }
      case 10: {
        if (mx.empty()) break;
        size_t i = r.below(mx.size());
        char ch = (char)r.below(256);
        op("s%d[%zu] = 0x%02x", k, i, (unsigned char)ch);
        if (r.chance(1, 2)) x[i] = ch;
        else x.at(i) = ch;
        mx[i] = ch;
        break;
      }
      case 11: {
        std::string b = rnd_bytes(r, new_size(r), false);
        op("s%d += \"%zu bytes\"", k, b.size());
        x += b.c_str();
        mx += b;
        break;
      }
      case 12: {
        op("delete s%d, new", k);
        delete s[k];
        if (r.chance(1, 3)) {
          s[k] = new nanostl::string(static_cast<const char*>(0));
          mx.clear();
        } else {
          s[k] = new nanostl::string(*s[o == k ? (k + 1) % N : o]);
          mx = m[o == k ? (k + 1) % N : o];
        }
        break;
      }
      case 13: {  // a piece of another string
        size_t a = r.below(m[o].size() + 1), b = a + r.below(m[o].size() - a + 1);
        op("s%d = string(s%d + %zu, s%d + %zu)", k, o, a, o, b);
        nanostl::string t(s[o]->c_str() + a, s[o]->c_str() + b);
        std::string mt = m[o].substr(a, b - a);
        str_check(t, mt, "range of another string");
        x = t;
        mx = mt;
        break;
      }
    }
    cs.note(kind, (u64)k * 16 + (u64)o, hashmem(m[k].data(), m[k].size()));
    if (m[k].size() > cs.maxsize) cs.maxsize = m[k].size();
    str_check(*s[k], m[k], "after the operation");
    if (o != k) str_check(*s[o], m[o], "other string");
    count("operations");
    if (m[k].find('\0') != std::string::npos) count("states with an embedded NUL");
  }
  for (int i = 0; i < N; i++) {
    str_check(*s[i], m[i], "at the end");
    delete s[i];
  }
  return cs;
}

// ---- map against std::map

template <class K>
struct KeyOf {
  static K make(int id) { return static_cast<K>(id); }
  static bool same(const K& k, int id) { return k == static_cast<K>(id); }
};
template <>
struct KeyOf<Tracked> {
  static Tracked make(int id) { return Tracked(id); }
  static bool same(const Tracked& k, int id) { return k.get() == id; }
};
template <>
struct KeyOf<int> {  // over the whole range of the type for the widest ids
  static int make(int id) { return id * 4290; }
  static bool same(const int& k, int id) { return k == make(id); }
};
template <>
struct KeyOf<long long> {
  static long long make(int id) { return id * 18000000000000LL; }
  static bool same(const long long& k, int id) { return k == make(id); }
};
// Equivalent keys with different bytes, told apart by == but not by <, which is all that a map may use
struct Weak {
  int id, noise;
  explicit Weak(int i) : id(i), noise(0) {
    static int n = 0;
    noise = ++n;
  }
  friend bool operator<(const Weak& a, const Weak& b) { return a.id < b.id; }
  friend bool operator==(const Weak& a, const Weak& b) { return a.id == b.id && a.noise == b.noise; }
};
template <>
struct KeyOf<Weak> {
  static Weak make(int id) { return Weak(id); }
  static bool same(const Weak& k, int id) { return k.id == id; }
};
template <>
struct KeyOf<nanostl::string> {  // keeps the order of non-negative ids
  static std::string ref(int id) {
    char b[32];
    snprintf(b, sizeof b, "k%010d", id);
    return b;
  }
  static nanostl::string make(int id) { return nanostl::string(ref(id).c_str()); }
  static bool same(const nanostl::string& k, int id) { return ref(id) == k.c_str(); }
};

template <class M, class K, class T>
void map_check(M& c, const std::map<int, int>& m, const char* what) {
  CK(c.empty() == m.empty(), "%s: empty() is %d for %zu keys", what, (int)c.empty(), m.size());
  std::map<int, int>::const_iterator e = m.begin();
  typename M::iterator it = c.begin();
  size_t n = 0;
  for (; it != c.end(); ++it, ++e, ++n) {
    CK(!it.isEnd(), "%s: isEnd() is true before the end", what);
    CK(e != m.end(), "%s: iteration gives more than the %zu keys that were inserted", what, m.size());
    CK(KeyOf<K>::same((*it).first, e->first), "%s: key %zu in iteration order is not %d", what, n, e->first);
    CK(El<T>::same(it->second, e->second), "%s: the value of key %d is not the one of the model", what, e->first);
    CK(!(it == c.end()), "%s: an iterator at a key is == end()", what);
  }
  CK(e == m.end(), "%s: iteration gives %zu of %zu keys", what, n, m.size());
  CK(it == c.end() && it.isEnd(), "%s: the iteration does not finish at end()", what);
}

template <class M, class K, class T>
void map_lookup(const M& c, const std::map<int, int>& m, int id) {
  K key = KeyOf<K>::make(id);
  typename M::iterator f = c.find(key);
  std::map<int, int>::const_iterator e = m.find(id);
  if (e == m.end()) {
    CK(f.isEnd() && f == c.end() && !(f != c.end()), "find(%d) finds a key that was never inserted", id);
    count("lookups of absent keys");
  } else {
    CK(!f.isEnd() && f != c.end() && !(f == c.end()), "find(%d) does not find an inserted key", id);
    CK(KeyOf<K>::same(f->first, id) && El<T>::same((*f).second, e->second), "find(%d) gives another element", id);
    count("lookups of present keys");
  }
  typename M::iterator u = c.upper_bound(key);
  e = m.upper_bound(id);
  if (e == m.end()) {
    CK(u.isEnd() && u == c.end(), "upper_bound(%d) gives an element, but no key is greater", id);
  } else {
    CK(!u.isEnd() && u != c.end(), "upper_bound(%d) gives end() instead of %d", id, e->first);
    CK(KeyOf<K>::same(u->first, e->first) && El<T>::same(u->second, e->second),
       "upper_bound(%d) is not the smallest greater key %d", id, e->first);
  }
}

template <class K, class T>
CaseStats run_map(Rng& r, unsigned nops, bool negative) {
  typedef nanostl::map<K, T> M;
  const int N = 3;
  M* c[N];
  std::map<int, int> m[N];
  std::map<int, const T*> addr[N];
  typename M::iterator* held[N] = {};  // an iterator kept while the map grows
  int held_id[N] = {};
  CaseStats cs;
  size_t live0 = Tracked::live().size();
  for (int i = 0; i < N; i++) c[i] = new M;
  const int spread = long_case() ? 1000000 : (int[]){8, 40, 400, 1000000}[r.below(4)];
  const int lo = negative ? -spread / 2 : 0;
  const unsigned style = (unsigned)r.below(4);
  int next = lo;
  for (unsigned step = 0; step < nops; step++) {
    int k = (int)r.below(N), o = (int)r.below(N);
    M& x = *c[k];
    std::map<int, int>& mx = m[k];
    int id;
    switch (style) {
      case 0: id = next++; break;
      case 1: id = (negative ? 0 : spread * 2) - (int)step; break;
      default: id = (int)r.range(lo, lo + spread);
    }
    if (!negative && id < 0) id = -id;
    if (!mx.empty() && r.chance(1, 5)) {
      std::map<int, int>::iterator p = mx.lower_bound(id);
      id = p == mx.end() ? mx.begin()->first : p->first;
    }
    int val = new_id(r);
    unsigned kind = (unsigned)r.below(12);
    switch (kind) {
      case 0: case 1: case 2: case 3: {
        op("m%d.insert(%d, %d)", k, id, val);
        bool fresh = mx.insert(std::make_pair(id, val)).second;
        nanostl::pair<typename M::iterator, bool> p =
            x.insert(nanostl::pair<const K, T>(KeyOf<K>::make(id), El<T>::make(val)));
        CK(p.second == fresh, "insert(%d) says %d", id, (int)p.second);
        CK(p.first != x.end() && KeyOf<K>::same(p.first->first, id) && El<T>::same(p.first->second, mx[id]),
           "insert(%d) does not give the element with this key", id);
        if (fresh) addr[k][id] = &p.first->second;
        break;
      }
      case 4: case 5: {
        op("m%d[%d] = %d", k, id, val);
        T& ref = x[KeyOf<K>::make(id)];
        bool fresh = !mx.count(id);
        CK(El<T>::same(ref, fresh ? 0 : mx[id]), "operator[](%d) is not the %s", id, fresh ? "default" : "stored value");
        ref = El<T>::make(val);
        mx[id] = val;
        if (fresh) addr[k][id] = &ref;
        break;
      }
      case 6: {
        op("m%d[%d]", k, id);
        T& ref = x[KeyOf<K>::make(id)];
        bool fresh = !mx.count(id);
        CK(El<T>::same(ref, fresh ? 0 : mx[id]), "operator[](%d) is not the %s", id, fresh ? "default" : "stored value");
        mx[id];
        if (fresh) addr[k][id] = &ref;
        break;
      }
      case 7: {
        op("m%d: lookups around %d", k, id);
        for (int d = -2; d <= 2; d++) map_lookup<M, K, T>(x, mx, negative || id + d >= 0 ? id + d : 0);
        break;
      }
      case 8: {
        op("m%d = m%d", k, o);
        x = *c[o];
        std::map<int, int> t = m[o];
        mx = t;
        if (o != k) {
          addr[k].clear();
          delete held[k];
          held[k] = nullptr;
          for (typename M::iterator it = x.begin(); it != x.end(); ++it) {
            typename M::iterator f = c[o]->find(it->first);
            CK(f != c[o]->end() && &f->second != &it->second, "a copied map shares its elements");
          }
        }
        break;
      }
      case 9: {
        op("m%d copied, the copy changed", k);
        M t(x);
        std::map<int, int> mt = mx;
        map_check<M, K, T>(t, mt, "copy");
        for (int i = 0; i < 3; i++) {
          int q = (int)r.range(lo, lo + spread), w = new_id(r);
          t[KeyOf<K>::make(q)] = El<T>::make(w);
          mt[q] = w;
        }
        map_check<M, K, T>(t, mt, "changed copy");
        map_check<M, K, T>(x, mx, "source of a changed copy");
        break;
      }
      case 10: {
        if (!r.chance(1, 4)) break;
        op("delete m%d, new", k);
        delete held[k];
        held[k] = nullptr;
        delete c[k];
        c[k] = new M;
        mx.clear();
        addr[k].clear();
        break;
      }
      case 11: {
        if (mx.empty()) break;
        op("m%d: assign through an iterator", k);
        std::map<int, int>::iterator p = mx.lower_bound(id);
        if (p == mx.end()) p = mx.begin();
        typename M::iterator f = x.find(KeyOf<K>::make(p->first));
        CK(f != x.end(), "find(%d) does not find an inserted key", p->first);
        f->second = El<T>::make(val);
        p->second = val;
        if (!held[k] || r.chance(1, 3)) {
          delete held[k];
          held[k] = new typename M::iterator(f);
          held_id[k] = p->first;
        }
        break;
      }
    }
    cs.note(kind, (u64)(unsigned)id, (u64)k * 16 + (u64)o);
    if (m[k].size() > cs.maxsize) cs.maxsize = m[k].size();
    if (held[k]) {
      typename M::iterator h = *held[k];
      CK(!h.isEnd() && KeyOf<K>::same(h->first, held_id[k]) && El<T>::same(h->second, mx[held_id[k]]),
         "an iterator at key %d no longer gives its element", held_id[k]);
      CK(h == x.find(KeyOf<K>::make(held_id[k])), "an iterator at key %d is not == find()", held_id[k]);
      ++h;
      std::map<int, int>::iterator u = mx.upper_bound(held_id[k]);
      if (u == mx.end())
        CK(h.isEnd() && h == x.end(), "++ of the iterator kept at the last key %d is not end()", held_id[k]);
      else
        CK(!h.isEnd() && KeyOf<K>::same(h->first, u->first) && El<T>::same(h->second, u->second),
           "++ of an iterator kept at key %d is not at key %d", held_id[k], u->first);
      count("uses of iterators kept across changes");
    }
    map_check<M, K, T>(*c[k], m[k], "after the operation");
    map_lookup<M, K, T>(*c[k], m[k], id);
    if (o != k) map_check<M, K, T>(*c[o], m[o], "other map");
    count("operations");
  }
  for (int i = 0; i < N; i++) {
    for (typename std::map<int, const T*>::iterator p = addr[i].begin(); p != addr[i].end(); ++p) {
      typename M::iterator f = c[i]->find(KeyOf<K>::make(p->first));
      CK(f != c[i]->end() && &f->second == p->second, "the element of key %d moved", p->first);
    }
    map_check<M, K, T>(*c[i], m[i], "at the end");
    delete held[i];
    delete c[i];
  }
  CK(Tracked::live().size() == live0, "%zu elements outlived their maps", Tracked::live().size() - live0);
  return cs;
}

// A map of many keys, inserted in an order that the style chooses
inline CaseStats map_many(Rng& r, int n, unsigned style) {
  nanostl::map<int, int> c;
  std::map<int, int> m;
  std::vector<const int*> addr;
  CaseStats cs;
  op("%d keys, style %u", n, style);
  for (int i = 0; i < n; i++) {
    int id = style == 0 ? i : style == 1 ? -i : style == 2 ? (i % 2 ? i : -i) : (int)(r.next() & 0xffffffu) - 0x800000;
    int val = (int)(r.next() & 0xffff);
    if (r.chance(1, 2)) {
      int& ref = c[KeyOf<int>::make(id % 500000)];
      ref = m[id % 500000] = val;
    } else {
      bool fresh = m.insert(std::make_pair(id % 500000, val)).second;
      nanostl::pair<const int, int> kv(KeyOf<int>::make(id % 500000), val);
      CK(c.insert(kv).second == fresh, "insert(%d) as key number %d does not say %d", id % 500000, i, (int)fresh);
    }
    cs.note(style, (u64)(unsigned)id, (u64)(unsigned)val);
    if (i % 64 == 0) map_lookup<nanostl::map<int, int>, int, int>(c, m, (int)r.range(-500000, 500000));
  }
  map_check<nanostl::map<int, int>, int, int>(c, m, "map of many keys");
  const nanostl::map<int, int> d(c);
  c[KeyOf<int>::make(m.begin()->first)]++;
  std::map<int, int>::iterator e = m.begin();
  for (int i = 0; i < 2000; i++) map_lookup<nanostl::map<int, int>, int, int>(d, m, (int)r.range(-500000, 500000));
  CK(c.begin()->second == e->second + 1, "the first key does not keep its value");
  cs.maxsize = m.size();
  for (unsigned k = 10; k < 14; k++) cs.note(k, 0, 0);
  count("keys of maps of many keys", (u64)m.size());
  return cs;
}

}  // namespace ck
#endif
