// basic_string of other character types than char: the contents against a std::vector (P04) and the order against the order of the characters (P05).
#include <nanostring.h>
#include <vector>
#include "common.h"
using namespace ck;

template <class C> static C letter(Rng& r) {
  // values whose low bytes, high bytes or signs tell otherwise than the values, and small ones; the terminator is one of them
  static const unsigned long long v[] = {0, 1, 'a', 'b', 0x7f, 0x80, 0xff, 0x100, 0x101, 0x161, 0x261, 0x7f00, 0x8000, 0xff01, 0xffff, 0x10000, 0x10061, 0x1f600, 0x7fffffff, 0x80000000ull, 0xffffffffull};
  if (r.chance(1, 6)) return (C)r.next();
  return (C)v[r.below(sizeof v / sizeof *v)];
}
template <class C> static C below(Rng& r, bool nul) {
  C c;
  do c = letter<C>(r); while (!nul && c == C(0));
  return c;
}
template <class C> static std::string text(const std::vector<C>& m) {
  std::string s = "[";
  char b[32];
  for (size_t i = 0; i < m.size(); i++) {
    snprintf(b, sizeof b, "%s%llx", i ? " " : "", (unsigned long long)m[i]);
    s += b;
  }
  return s + "]";
}
template <class C> static int order(const std::vector<C>& a, const std::vector<C>& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); i++)
    if (a[i] != b[i]) return (sizeof(C) == 1 ? (unsigned char)a[i] < (unsigned char)b[i] : a[i] < b[i]) ? -1 : 1;
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
template <class C> static C* copy(const std::vector<C>& m, bool nul) {  // an allocation of exactly the size
  C* p = new C[m.size() + nul + !(m.size() + nul)];
  for (size_t i = 0; i < m.size(); i++) p[i] = m[i];
  if (nul) p[m.size()] = C(0);
  return p;
}
template <class C> static bool has_nul(const std::vector<C>& m) {
  for (size_t i = 0; i < m.size(); i++)
    if (m[i] == C(0)) return true;
  return false;
}
template <class C> static std::vector<C> rnd(Rng& r, unsigned n, bool nul) {
  std::vector<C> m;
  while (n--) m.push_back(below<C>(r, nul));
  return m;
}
template <class C> static void same(const char* type, const char* op, nanostl::basic_string<C>& s, const std::vector<C>& m) {
  const nanostl::basic_string<C>& c = s;
  CK(c.size() == m.size() && c.length() == m.size() && c.empty() == m.empty(), "%s: after %s size() is %llu, expected %zu", type, op, (unsigned long long)c.size(), m.size());
  for (size_t i = 0; i < m.size(); i++)
    CK(c[i] == m[i] && s[i] == m[i] && c.at(i) == m[i] && s.at(i) == m[i] && c.c_str()[i] == m[i], "%s: after %s character %zu is %llx, expected %llx", type, op, i, (unsigned long long)c[i], (unsigned long long)m[i]);
  CK(c.c_str()[m.size()] == C(0), "%s: after %s the text is not terminated", type, op);
}
static int sgn(int x) { return (x > 0) - (x < 0); }
template <class C> static void compare(const char* type, const nanostl::basic_string<C>& a, const std::vector<C>& ma, const nanostl::basic_string<C>& b, const std::vector<C>& mb) {
  int e = order(ma, mb);
  CK(sgn(a.compare(b)) == e, "%s: compare(%s, %s) is %d, expected the sign %d", type, text(ma).c_str(), text(mb).c_str(), a.compare(b), e);
  CK((a == b) == (e == 0) && (a != b) == (e != 0) && (a < b) == (e < 0) && (a > b) == (e > 0), "%s: ==, !=, <, > of %s and %s", type, text(ma).c_str(), text(mb).c_str());
  count(e < 0 ? "less" : e > 0 ? "greater" : "equal");
  if (has_nul(mb)) return;
  C* z = copy(mb, true);
  CK(sgn(a.compare(z)) == e, "%s: compare(%s, literal %s) is %d, expected the sign %d", type, text(ma).c_str(), text(mb).c_str(), a.compare(z), e);
  CK((a == z) == (e == 0) && (a != z) == (e != 0) && (a < z) == (e < 0) && (a > z) == (e > 0), "%s: ==, !=, <, > of %s and literal %s", type, text(ma).c_str(), text(mb).c_str());
  delete[] z;
  count("comparisons with a terminated array");
}
template <class C> static void order_case(const char* type, Rng r) {
  std::vector<C> p = rnd<C>(r, (unsigned)r.below(r.chance(1, 10) ? 100 : 5), r.chance(1, 2)), a = p, b = p;
  for (unsigned n = (unsigned)r.below(3); n; n--) a.push_back(below<C>(r, true));
  for (unsigned n = (unsigned)r.below(3); n; n--) b.push_back(below<C>(r, r.chance(1, 4)));
  C *x = copy(a, false), *y = copy(b, false);
  nanostl::basic_string<C> s(x, (typename nanostl::basic_string<C>::size_type)a.size()), t(y, (typename nanostl::basic_string<C>::size_type)b.size());
  delete[] x;
  delete[] y;
  compare(type, s, a, t, b);
  compare(type, t, b, s, a);
  compare(type, s, a, s, a);
  eval(mix(mix(hashmem(a.data(), a.size() * sizeof(C)), hashmem(b.data(), b.size() * sizeof(C))), sizeof(C) * 2 + (C(-1) < C(0))), a != b && !p.empty());
}
template <class C> static void contents_case(const char* type, Rng r) {
  typedef nanostl::basic_string<C> S;
  S* s[3];
  std::vector<C> m[3];
  for (int i = 0; i < 3; i++) s[i] = new S();
  u64 h = sizeof(C) * 2 + (C(-1) < C(0));
  for (unsigned n = 5 + (unsigned)r.below(40); n; n--) {
    int i = (int)r.below(3), j = (int)r.below(3);
    unsigned op = (unsigned)r.below(12);
    const char* name = "";
    bool nul = r.chance(1, 3);
    std::vector<C> w = rnd<C>(r, (unsigned)r.below(r.chance(1, 10) ? 100 : 9), nul);
    C* q = 0;
    switch (op) {
      case 0: name = "clear"; s[i]->clear(); m[i].clear(); break;
      case 1:
        name = "construction from a terminated array";
        if (has_nul(w)) w = rnd<C>(r, (unsigned)r.below(9), false);
        q = copy(w, true); delete s[i]; s[i] = new S(q); m[i] = w; break;
      case 2: name = "construction from a count"; q = copy(w, false); delete s[i]; s[i] = new S(q, (typename S::size_type)w.size()); m[i] = w; break;
      case 3: name = "construction from a range"; q = copy(w, false); delete s[i]; s[i] = new S(q, q + w.size()); m[i] = w; break;
      case 4: { name = "copy construction"; S* c = new S(*s[j]); std::vector<C> t = m[j]; delete s[i]; s[i] = c; m[i] = t; break; }
      case 5: name = "assignment"; *s[i] = *s[j]; m[i] = std::vector<C>(m[j]); break;
      case 6: case 7: { name = "+="; std::vector<C> t = m[j]; if (m[i].size() + t.size() > 400) continue; *s[i] += *s[j]; m[i].insert(m[i].end(), t.begin(), t.end()); break; }
      case 8: { name = "+"; std::vector<C> t = m[i]; if (t.size() + m[j].size() > 400) continue; t.insert(t.end(), m[j].begin(), m[j].end()); int k = (int)r.below(3); *s[k] = *s[i] + *s[j]; i = k; m[i] = t; break; }
      case 9: if (m[i].empty()) continue; { name = "[] ="; size_t k = r.below(m[i].size()); C c = below<C>(r, true); (*s[i])[k] = c; m[i][k] = c; break; }
      case 10: if (m[i].empty()) continue; { name = "at ="; size_t k = r.below(m[i].size()); C c = below<C>(r, true); s[i]->at(k) = c; m[i][k] = c; break; }
      default:
        if (m[i].empty()) continue;
        { name = "erase"; size_t k = r.below(m[i].size()); typename S::iterator it = s[i]->erase(&(*s[i])[k]); m[i].erase(m[i].begin() + (long)k);
          CK(it == &(*s[i])[0] + k, "%s: erase returned another place", type); break; }
    }
    delete[] q;
    h = mix(mix(h, op), hashmem(m[i].data(), m[i].size() * sizeof(C)));
    count(name);
    for (int k = 0; k < 3; k++) same(type, name, *s[k], m[k]);
  }
  for (int i = 0; i < 3; i++) delete s[i];
  eval(h, true);
}
template <class C> static void one(const char* type, u64 seed) {
  begin_case("%s, rng %llu", type, (unsigned long long)seed);
#ifdef ORDER
  for (u64 k = 0; k < 8; k++) order_case<C>(type, Rng(mix(seed, k)));
#else
  contents_case<C>(type, Rng(seed));
#endif
  count(type);
  sample(st().casename);
}
int main(int argc, char** argv) {
#ifdef ORDER
  init(argc, argv, "P05");
#else
  init(argc, argv, "P04");
#endif
  Rng r = rng(45);
  for (unsigned i = 0, n = st().thorough ? 20000 : 1000; i < n; i++) {
    u64 s = r.next();
    one<char16_t>("char16_t", s);
    one<char32_t>("char32_t", s);
    one<wchar_t>("wchar_t", s);
    one<unsigned char>("unsigned char", s);
#ifndef ORDER  // the order of signed char is that of char or that of its values
    one<signed char>("signed char", s);
#endif
    one<char>("char", s);
  }
  return finish();
}
