// Containers of elements that account for their own lifetime; the heap must be as before after every case.
#include "containers.h"
using namespace ck;

// elements that a deep structure leads to
typedef nanostl::vector<nanostl::vector<Tracked> > VV;

static CaseStats run_mixed(Rng& r, unsigned nops) {
  // maps of vectors, vectors of maps, copied around
  typedef nanostl::map<int, nanostl::vector<Tracked> > MV;
  CaseStats cs;
  nanostl::vector<MV>* a = new nanostl::vector<MV>;
  std::vector<std::map<int, std::vector<int> > > m;
  for (unsigned i = 0; i < nops; i++) {
    unsigned kind = (unsigned)r.below(7);
    size_t k = r.below(m.size() + 1);
    if (kind != 0 && kind != 4 && k >= m.size()) continue;
    op("mixed op %u at %zu of %zu", kind, k, m.size());
    switch (kind) {
      case 0: {
        if (m.size() > 12) break;
        size_t from = r.below(m.size() + 1);
        if (from < m.size()) {
          std::map<int, std::vector<int> > t = m[from];
          a->push_back((*a)[from]);
          m.push_back(t);
        } else {
          a->push_back(MV());
          m.push_back(std::map<int, std::vector<int> >());
        }
        break;
      }
      case 1: {
        int key = (int)r.below(20), v = new_id(r);
        (*a)[k][key].push_back(Tracked(v));
        m[k][key].push_back(v);
        break;
      }
      case 2: {
        int key = (int)r.below(20);
        size_t n = r.below(5);
        (*a)[k][key].resize(n);
        m[k][key].resize(n, 0);
        break;
      }
      case 3:
        a->erase(a->begin() + k);
        m.erase(m.begin() + (long)k);
        break;
      case 4: {
        size_t n = r.below(6);
        a->resize(n);
        m.resize(n);
        break;
      }
      case 5: {
        size_t j = r.below(m.size());
        (*a)[k] = (*a)[j];
        std::map<int, std::vector<int> > t = m[j];
        m[k] = t;
        break;
      }
      case 6: {
        nanostl::vector<MV>* b = new nanostl::vector<MV>(*a);
        if (r.chance(1, 2)) b->swap(*a);
        if (r.chance(1, 2)) *b = *a;
        delete b;
        break;
      }
    }
    CK(a->size() == m.size(), "size differs");
    for (size_t q = 0; q < m.size(); q++)
      for (std::map<int, std::vector<int> >::iterator e = m[q].begin(); e != m[q].end(); ++e) {
        MV::iterator f = (*a)[q].find(e->first);
        CK(f != (*a)[q].end() && f->second.size() == e->second.size(), "nested content differs");
        for (size_t w = 0; w < e->second.size(); w++) CK(f->second[w].get() == e->second[w], "nested content differs");
      }
    cs.note(kind, k, m.size());
    if (m.size() > cs.maxsize) cs.maxsize = m.size();
    count("operations");
  }
  delete a;
  return cs;
}

int main(int argc, char** argv) {
  init(argc, argv, "P02");
  Rng r = rng(2);
  Tracked::live().rehash(1 << 16);
  count("operations", 0);
  count("allocations through an allocator of the user", 0);
  Counted<Tracked>::given();
  count("states with an embedded NUL", 0);
  count("lookups of absent keys", 0);
  count("lookups of present keys", 0);
  count("uses of iterators kept across changes", 0);
  const unsigned cases = st().thorough ? 24000 : 1100;
  const bool have_heap = heap_bytes() > 0;
  { Rng w(1); run_seq<nanostl::vector<Tracked>, Tracked>(w, 50); }  // one-time allocations of the runtime
  for (unsigned i = 0; i < cases; i++) {
    u64 s = r.next();
    Rng c(s);
    unsigned n = 20 + (unsigned)c.below(100), t = i % 11;
    begin_case("case %u: kind %u, %u operations, rng %llu", i, t, n, (unsigned long long)s);
    Tracked::Stats& q = Tracked::stats();
    u64 made0 = q.ctor + q.copy, gone0 = q.dtor;
    size_t heap0 = heap_bytes();
    CaseStats cs;
    switch (t) {
      case 0: cs = run_seq<nanostl::vector<Tracked>, Tracked>(c, n); break;
      case 1: cs = run_seq<VV, nanostl::vector<Tracked> >(c, n); break;
      case 2: cs = run_seq<nanostl::valarray<Tracked>, Tracked>(c, n); break;
      case 3: cs = run_map<Tracked, Tracked>(c, n, true); break;
      case 4: cs = run_map<int, nanostl::vector<Tracked> >(c, n, true); break;
      case 5: cs = run_mixed(c, n); break;
      case 6: cs = run_string(c, n); break;
      case 7: cs = run_seq<nanostl::vector<nanostl::string>, nanostl::string>(c, n); break;
      case 9: cs = run_seq<nanostl::vector<Tracked, Counted<Tracked> >, Tracked>(c, n); break;
      case 10: cs = run_seq<nanostl::valarray<Tracked, Counted<Tracked> >, Tracked>(c, n); break;
      case 8: cs = run_map<nanostl::string, nanostl::string>(c, n, false); break;
    }
    size_t heap1 = heap_bytes();
    u64 made = q.ctor + q.copy - made0, gone = q.dtor - gone0;
    CK(made == gone, "%llu elements were constructed, %llu destroyed", (unsigned long long)made, (unsigned long long)gone);
    CK(!have_heap || heap0 == heap1, "the containers leaked %ld bytes", (long)(heap1 - heap0));
    CK(Counted<Tracked>::given().empty(), "%zu allocations were never given back", Counted<Tracked>::given().size());
    eval(cs);
    count("elements constructed and destroyed", made);
    if (have_heap) count("cases with a heap balance");
    sample(last_ops());
  }
  return finish();
}
