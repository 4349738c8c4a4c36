// string comparison against std::string::compare: every pair of short strings over a hostile alphabet, and long ones.
#include "containers.h"
using namespace ck;

static int sgn(int x) { return (x > 0) - (x < 0); }

static void pair(const nanostl::string& a, const std::string& ma, const nanostl::string& b, const std::string& mb) {
  int e = sgn(ma.compare(mb));
  CK(sgn(a.compare(b)) == e, "compare(%s, %s) is %d, expected the sign %d", show(ma).c_str(), show(mb).c_str(), a.compare(b), e);
  CK((a == b) == (e == 0) && (a != b) == (e != 0) && (a < b) == (e < 0) && (a > b) == (e > 0),
     "==, !=, <, > of %s and %s: %d %d %d %d", show(ma).c_str(), show(mb).c_str(), (int)(a == b), (int)(a != b), (int)(a < b), (int)(a > b));
  if (mb.find('\0') == std::string::npos) {
    // the buffer ends at the terminator, so that reading further is caught
    char* z = new char[mb.size() + 1];
    memcpy(z, mb.c_str(), mb.size() + 1);
    CK(sgn(a.compare(z)) == e, "compare(%s, literal %s) is %d, expected the sign %d", show(ma).c_str(), show(mb).c_str(), a.compare(z), e);
    CK((a == z) == (e == 0) && (a != z) == (e != 0) && (a < z) == (e < 0) && (a > z) == (e > 0),
       "==, !=, <, > of %s and the literal %s: %d %d %d %d", show(ma).c_str(), show(mb).c_str(), (int)(a == z), (int)(a != z),
       (int)(a < z), (int)(a > z));
    delete[] z;
    count("comparisons with a C string");
  }
  count(e < 0 ? "less" : e > 0 ? "greater" : "equal");
}

static nanostl::string str(const std::string& m) { return nanostl::string(m.data(), (nanostl::string::size_type)m.size()); }

int main(int argc, char** argv) {
  init(argc, argv, "P05");
  Rng r = rng(5);
  const unsigned char abc[] = {0x00, 0x01, 'a', 0x7f, 0x80, 0xff};
  std::vector<std::string> all(1, "");
  size_t from = 0;
  for (int len = 1; len <= (st().thorough ? 4 : 3); len++) {
    size_t to = all.size();
    for (size_t i = from; i < to; i++)
      for (unsigned k = 0; k < sizeof abc; k++) all.push_back(all[i] + (char)abc[k]);
    from = to;
  }
  std::vector<nanostl::string> ns;
  for (size_t i = 0; i < all.size(); i++) ns.push_back(str(all[i]));
  begin_case("all pairs of %zu strings of up to %d bytes", all.size(), st().thorough ? 4 : 3);
  u64 n = 0;
  for (size_t i = st().shard; i < all.size(); i += st().nshards)
    for (size_t j = 0; j < all.size(); j++, n++) pair(ns[i], all[i], ns[j], all[j]);
  enumerated(n);
  for (unsigned i = 0; i < (st().thorough ? 400000u : 20000u); i++) {
    std::string p = rnd_bytes(r, r.below(r.chance(1, 10) ? 300 : 20), r.chance(1, 2));
    bool nul = r.chance(1, 3);
    std::string a = p + rnd_bytes(r, r.below(4), nul), b = p + rnd_bytes(r, r.below(4), nul);
    begin_case("random pair %s %s", show(a).c_str(), show(b).c_str());
    nanostl::string na = str(a), nb = str(b);
    pair(na, a, nb, b);
    pair(nb, b, na, a);
    pair(na, a, na, a);
    eval(mix(hashmem(a.data(), a.size()), hashmem(b.data(), b.size())), a != b && !p.empty());
    sample(st().casename);
  }
  // every byte value against every byte value
  for (unsigned x = 0; x < 256; x++)
    for (unsigned y = 0; y < 256; y++) {
      if ((x * 256 + y) % st().nshards != st().shard) continue;
      std::string a("k"), b("k");
      a += (char)x;
      b += (char)y;
      pair(str(a), a, str(b), b);
      enumerated(1);
    }
  return finish();
}
