#include "containers.h"
using namespace ck;
// A type whose elements hold vectors of their own type: what is pushed back may be owned by an element of the vector that grows.
template <template <class> class V>
struct TreeOf {
  int id;
  V<TreeOf> kids;
  TreeOf() : id(0) {}
  explicit TreeOf(int i) : id(i) {}
};
template <class T>
using nano_vector = nanostl::vector<T>;
template <class T>
using std_vector = std::vector<T>;
typedef TreeOf<nano_vector> NTree;
typedef TreeOf<std_vector> STree;
void same_tree(const NTree& a, const STree& b) {
  CK(a.id == b.id, "an element of a tree of vectors is %d instead of %d", a.id, b.id);
  CK(a.kids.size() == b.kids.size(), "a vector in a tree has %llu elements instead of %zu", (unsigned long long)a.kids.size(), b.kids.size());
  for (size_t i = 0; i < b.kids.size(); i++) same_tree(a.kids[i], b.kids[i]);
}
size_t tree_size(const STree& t) {
  size_t n = 1;
  for (size_t i = 0; i < t.kids.size(); i++) n += tree_size(t.kids[i]);
  return n;
}
void trees(Rng& r) {
  NTree a(-1);
  STree b(-1);
  for (int step = 0; step < 40; step++) {
    NTree* x = &a;
    STree* y = &b;
    while (!y->kids.empty() && r.chance(1, 2)) {
      size_t i = r.below(y->kids.size());
      x = &x->kids[i];
      y = &y->kids[i];
    }
    // a descendant of the one that grows
    NTree* p = x;
    STree* q = y;
    while (!q->kids.empty() && r.chance(3, 4)) {
      size_t i = r.below(q->kids.size());
      p = &p->kids[i];
      q = &q->kids[i];
    }
    if (q == y || r.chance(1, 3) || tree_size(*q) > 50) {
      op("push_back(%d)", step);
      x->kids.push_back(NTree(step));
      y->kids.push_back(STree(step));
    } else {
      op("push_back of a descendant, %zu elements", y->kids.size());
      count("elements pushed back that an element of the vector owns");
      x->kids.push_back(*p);
      const STree copy(*q);
      y->kids.push_back(copy);
    }
    if (y->kids.size() > 1 && r.chance(1, 6)) {
      size_t i = r.below(y->kids.size());
      op("erase %zu", i);
      x->kids.erase(x->kids.begin() + i);
      y->kids.erase(y->kids.begin() + (long)i);
    }
    same_tree(a, b);
  }
}
int main(int argc, char** argv) {
  init(argc, argv, "P01");
  Rng r = rng();
  const unsigned cases = st().thorough ? 30000 : 1500;
  for (unsigned i = 0; i < cases; i++) {
    u64 s = r.next();
    Rng c(s);
    unsigned n = 20 + (unsigned)c.below(120);
    unsigned t = i % 9;
    if ((long_case() = i % 40 == 39)) {
      n = 30;
      t = i / 40 % 4;
    }
    begin_case("case %u: vector<type %u>, %u operations, rng %llu", i, t, n, (unsigned long long)s);
    switch (t) {
      case 0: eval(run_seq<nanostl::vector<int>, int>(c, n)); break;
      case 1: eval(run_seq<nanostl::vector<unsigned char>, unsigned char>(c, n)); break;
      case 2: eval(run_seq<nanostl::vector<double>, double>(c, n)); break;
      case 3: eval(run_seq<nanostl::vector<Tracked>, Tracked>(c, n)); break;
      case 4: eval(run_seq<nanostl::vector<Pod>, Pod>(c, n)); break;
      case 5: eval(run_seq<nanostl::vector<nanostl::string>, nanostl::string>(c, n)); break;
      case 6: eval(run_seq<nanostl::vector<nanostl::vector<int> >, nanostl::vector<int> >(c, n)); break;
      case 7: eval(run_seq<nanostl::vector<Tracked>, Tracked>(c, n)); break;
      case 8: eval(run_seq<nanostl::vector<nanostl::vector<Tracked> >, nanostl::vector<Tracked> >(c, n)); break;
    }
    sample(last_ops());
    if (i % 9 == 0) trees(c);
  }
  return finish();
}
