// siphash against an independent SipHash-2-4, and hash<T> of the scalar types.
#include "common.h"
#include "__hashfunc.h"
#include "nanofunctional.h"

namespace {
// Written from the paper: words in an array, message as one padded stream.
struct Sip {
  uint64_t v[4];
  static uint64_t rot(uint64_t x, int b) { return x << b | x >> (64 - b); }
  void round() {
    v[0] += v[1];
    v[2] += v[3];
    v[1] = rot(v[1], 13) ^ v[0];
    v[3] = rot(v[3], 16) ^ v[2];
    v[0] = rot(v[0], 32);
    v[2] += v[1];
    v[0] += v[3];
    v[1] = rot(v[1], 17) ^ v[2];
    v[3] = rot(v[3], 21) ^ v[0];
    v[2] = rot(v[2], 32);
  }
  static uint64_t le(const uint8_t* p) {
    uint64_t r = 0;
    for (int i = 7; i >= 0; i--) r = r << 8 | p[i];
    return r;
  }
  static void run(const std::vector<uint8_t>& in, const uint8_t* key, uint64_t out[2], bool wide) {
    Sip s;
    const uint64_t k0 = le(key), k1 = le(key + 8);
    const char init[] = "somepseudorandomlygeneratedbytes";
    for (int i = 0; i < 4; i++) {
      uint64_t c = 0;
      for (int k = 0; k < 8; k++) c = c << 8 | (uint8_t)init[8 * i + k];
      s.v[i] = c ^ (i & 1 ? k1 : k0);
    }
    if (wide) s.v[1] ^= 0xee;
    std::vector<uint8_t> m = in;
    while (m.size() % 8 != 7) m.push_back(0);
    m.push_back((uint8_t)in.size());
    for (size_t i = 0; i < m.size(); i += 8) {
      uint64_t w = le(&m[i]);
      s.v[3] ^= w;
      s.round(), s.round();
      s.v[0] ^= w;
    }
    s.v[2] ^= wide ? 0xee : 0xff;
    for (int i = 0; i < 4; i++) s.round();
    out[0] = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
    if (!wide) return;
    s.v[1] ^= 0xdd;
    for (int i = 0; i < 4; i++) s.round();
    out[1] = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
  }
};
void sip(ck::Rng& r, size_t len, bool wide, unsigned align) {
  std::vector<uint8_t> in(len), key(16);
  for (size_t i = 0; i < len; i++) in[i] = (uint8_t)(r.chance(1, 3) ? 0xff : r.next());
  for (int i = 0; i < 16; i++) key[i] = (uint8_t)r.next();
  ck::begin_case("siphash of %zu bytes, %d out", len, wide ? 16 : 8);
  // exact heap buffers at several alignments: any access outside of them is caught
  uint8_t* a = (uint8_t*)malloc(len + align + (len + align == 0));
  uint8_t* k = (uint8_t*)malloc(16);
  uint8_t* o = (uint8_t*)malloc(wide ? 16 : 8);
  if (!a || !k || !o) ck::harness_error("malloc");
  if (len) memcpy(a + align, &in[0], len);
  memcpy(k, &key[0], 16);
  uint64_t want[2] = {0, 0};
  Sip::run(in, &key[0], want, wide);
  int rc = nanostl::siphash(a + align, len, k, o, wide ? 16 : 8);
  CK(rc == 0, "siphash returns %d", rc);
  for (int i = 0; i < (wide ? 16 : 8); i++) CK(o[i] == (uint8_t)(want[i / 8] >> (8 * (i % 8))), "siphash of %zu bytes: output byte %d is %02x", len, i, o[i]);
  CK(!len || memcmp(a + align, &in[0], len) == 0, "siphash changed its input");
  CK(memcmp(k, &key[0], 16) == 0, "siphash changed its key");
  free(a);
  free(k);
  free(o);
}
template <class T>
struct Hashes {
  // distinct values of at most 64 bits have distinct hashes, equal values have equal ones
  std::map<size_t, T> seen;
  const char* name;
  explicit Hashes(const char* n) : name(n) {}
  void put(T v) {
    nanostl::hash<T> h;
    const nanostl::hash<T> g = nanostl::hash<T>();
    size_t x = h(v);
    T copy = v;
    CK(x == g(copy), "hash<%s> differs between two calls", name);
    if (seen.size() < 200000) {
      std::pair<typename std::map<size_t, T>::iterator, bool> p = seen.insert(std::make_pair(x, v));
      if (!p.second && !(p.first->second == v)) ck::fail("hash<%s> of two different values is %zx", name, x);
    }
    ck::count("scalar hashes");
  }
};
template <class T>
void ints(ck::Rng& r, const char* name, unsigned n) {
  Hashes<T> h(name);
  if (sizeof(T) <= 2) {
    for (long i = 0; i < (1l << (8 * sizeof(T))); i++) h.put((T)i);
    return;
  }
  for (int b = 0; b < 64; b++)
    for (int d = -3; d <= 3; d++) h.put((T)((1ull << b) + (uint64_t)(int64_t)d)), h.put((T)((~0ull >> b) + (uint64_t)(int64_t)d));
  for (unsigned i = 0; i < n; i++) {
    T v = (T)(r.next() >> r.below(64));
    h.put(v);
    h.put(v);
    h.put((T)((uint64_t)v ^ (1ull << r.below(8 * sizeof(T)))));
  }
}
template <class T, class U>
void reals(ck::Rng& r, const char* name, unsigned n) {
  Hashes<T> h(name);
  nanostl::hash<T> f;
  T z[2] = {(T)0, -(T)0};
  CK(f(z[0]) == f(z[1]), "hash<%s> of 0 and -0 differ", name);
  h.put(z[0]);
  h.put(z[1]);
  h.put((T)INFINITY);
  h.put(-(T)INFINITY);
  for (unsigned i = 0; i < n; i++) {
    U u = (U)r.next();
    if (r.chance(1, 4)) u &= ~(U)0 >> (1 + r.below(8 * sizeof(U) - 1));
    T v;
    memcpy(&v, &u, sizeof v);
    if (v != v) continue;
    h.put(v);
    h.put(-v);
    T w = (T)r.range(-1000, 1000) / 8;
    h.put(w);
  }
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P16");
  ck::State& s = ck::st();
  ck::Rng r = ck::rng();
  if (s.shard == 0) {  // the published vectors: key 00..0f, message 00..len-1
    static const uint64_t V[] = {0x726fdb47dd0e0e31ull, 0x74f839c593dc67fdull, 0x0d6c8009d9a94f5aull, 0x85676696d7fb7e2dull, 0xcf2794e0277187b7ull, 0x18765564cd99a68dull, 0xcbc9466e58fee3ceull, 0xab0200f58b01d137ull};
    uint8_t k[16], m[16], o[8];
    for (int i = 0; i < 16; i++) k[i] = m[i] = (uint8_t)i;
    for (int len = 0; len < 16; len++) {
      if (len >= 8 && len != 15) continue;
      nanostl::siphash(m, (size_t)len, k, o, 8);
      uint64_t want = len == 15 ? 0xa129ca6149be45e5ull : V[len];
      CK(Sip::le(o) == want, "siphash test vector %d is %016llx", len, (unsigned long long)Sip::le(o));
      uint64_t mine[2];
      Sip::run(std::vector<uint8_t>(m, m + len), k, mine, false);
      if (mine[0] != want) ck::harness_error("the reference is wrong");
    }
    ck::count("published vectors", 9);
  }
  const size_t L = s.thorough ? 3000 : 300;
  for (size_t len = s.shard; len <= L; len += s.nshards)
    for (int w = 0; w < 2; w++)
      for (unsigned al = 0; al < 8; al++) sip(r, len, w != 0, al);
  const unsigned N = s.thorough ? 2000000 : 20000;
  for (unsigned i = 0; i < N; i++) {
    size_t len = r.below(r.chance(1, 50) ? 5000 : 90);
    bool w = r.chance(1, 2);
    sip(r, len, w, (unsigned)r.below(8));
    if (i < 3) ck::sample("siphash of " + std::to_string(len) + " random bytes under a random key, " + (w ? "128" : "64") + "-bit output");
    ck::eval(r.s, len > 0);
  }
  const unsigned H = s.thorough ? 60000 : 4000;
  ints<signed char>(r, "signed char", H);
  ints<unsigned char>(r, "unsigned char", H);
  ints<short>(r, "short", H);
  ints<unsigned short>(r, "unsigned short", H);
  ints<int>(r, "int", H);
  ints<unsigned>(r, "unsigned", H);
  ints<long>(r, "long", H);
  ints<unsigned long>(r, "unsigned long", H);
  ints<long long>(r, "long long", H);
  ints<unsigned long long>(r, "unsigned long long", H);
  reals<float, uint32_t>(r, "float", H);
  reals<double, uint64_t>(r, "double", H);
  nanostl::hash<bool> hb;
  CK(hb(true) != hb(false), "hash<bool> of true and false");
  nanostl::hash<nanostl::nullptr_t> hn;
  CK(hn(nullptr) == nanostl::hash<nanostl::nullptr_t>()(nullptr), "hash<nullptr_t> is not always the same");
  return ck::finish();
}
