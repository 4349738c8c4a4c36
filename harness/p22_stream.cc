// stringstream and cout: everything written comes out once, in order, in the same text as to_string.
#define NANOSTL_IMPLEMENTATION
#include "common.h"
#include <fcntl.h>
#include <sys/stat.h>
#include "nanostring.h"
#include "nanosstream.h"
#include "nanoiostream.h"

namespace {
int fd = -1;
std::string random_text(ck::Rng& r, bool nul) {
  size_t n = r.chance(1, 40) ? r.below(70000) : r.chance(1, 4) ? r.below(300) : r.below(20);
  std::string s;
  for (size_t i = 0; i < n; i++) {
    char c = r.chance(1, 8) ? "%\\\"\n\t%%sd"[r.below(9)] : (char)r.range(nul ? 0 : 1, 255);
    s += c;
  }
  return s;
}
std::string text(const nanostl::string& s) { return std::string(s.c_str(), s.size()); }
std::string i2s(long long v) { return std::to_string(v); }
// The shortest text that reads back as the value is not unique in form: what to_string gives (its value is another property's matter).
template <class F>
std::string f2s(F f) {
  return text(nanostl::to_string(f));
}

void stringstreams(ck::Rng& r, uint64_t id) {
  size_t heap0 = ck::heap_bytes();
  ck::u64 h = id;
  unsigned kinds = 0;
  {
    nanostl::stringstream s[3];
    std::string* m = new std::string[3];
    unsigned steps = 3 + (unsigned)r.below(40);
    for (unsigned k = 0; k < steps; k++) {
      unsigned i = (unsigned)r.below(3), j = (unsigned)r.below(3), o = (unsigned)r.below(10);
      kinds |= 1u << o;
      h = ck::mix(h, o * 16 + i * 4 + j);
      ck::op("%u i=%u j=%u", o, i, j);
      switch (o) {
        case 0: s[i].clear(); m[i].clear(); break;
        case 1:
          s[i] = static_cast<nanostl::stringstream&&>(s[j]);
          if (i != j) m[i] = m[j], m[j].clear();
          else m[i] = text(s[i].str());  // a stream moved to itself: only no memory error
          break;
        case 2: {  // its own text
          s[i] << s[i].str();
          m[i] += std::string(m[i]);
          if (m[i].size() > 1000000) s[i].clear(), m[i].clear();
          break;
        }
        case 3: {
          s[i] << s[j].str();
          m[i] += std::string(m[j]);
          if (m[i].size() > 1000000) s[i].clear(), m[i].clear();
          break;
        }
        case 4: {  // str() is the text itself, not a copy
          std::string t = random_text(r, true);
          s[i].str() = nanostl::string(t.data(), t.data() + t.size());
          m[i] = t;
          h = ck::hashmem(t.data(), t.size(), h);
          break;
        }
        case 5: {
          std::string t = random_text(r, false);
          s[i] << nanostl::string(t.c_str()) << nanostl::string("-") << nanostl::to_string(-7);
          m[i] += t + "--7";
          h = ck::hashmem(t.data(), t.size(), h);
          break;
        }
        default: {
          std::string t = random_text(r, true);
          nanostl::string n(t.data(), t.data() + t.size());
          nanostl::stringstream& back = s[i] << n;
          CK(&back == &s[i], "<< returned another stream");
          CK(text(n) == t, "<< changed what was written");
          m[i] += t;
          h = ck::hashmem(t.data(), t.size(), h);
          break;
        }
      }
      for (unsigned q = 0; q < 3; q++) {
        const nanostl::string& t = s[q].str();
        CK(t.size() == m[q].size() && !memcmp(t.c_str(), m[q].data(), m[q].size()) && t.c_str()[t.size()] == 0,
           "stream %u holds %zu bytes instead of %zu, or other ones", q, (size_t)t.size(), m[q].size());
      }
    }
    delete[] m;
  }
  CK(ck::heap_bytes() == heap0, "stringstreams leaked");
  ck::count("stringstream sequences");
  ck::eval(h, __builtin_popcount(kinds) >= 3);
}

void couts(ck::Rng& r, uint64_t id) {
  using nanostl::cout;
  std::string want;
  ck::u64 h = id;
  unsigned kinds = 0, steps = 1 + (unsigned)r.below(40);
  CK(ftruncate(fd, 0) == 0 && lseek(fd, 0, SEEK_SET) == 0, "the scratch file");
  size_t flushed = 0;
  for (unsigned k = 0; k < steps; k++) {
    unsigned o = (unsigned)r.below(13);
    kinds |= 1u << o;
    ck::u64 v = r.next() >> r.below(64);
    if (r.chance(1, 3)) v = ~v;
    h = ck::mix(h, ck::mix(v, o));
    ck::op("%u v=%llu", o, (unsigned long long)v);
    nanostl::ostream* back = &cout;
    switch (o) {
      case 0: back = &(cout << (bool)(v & 1)); want += (v & 1) ? "1" : "0"; break;
      case 1: back = &(cout << (short)v); want += i2s((short)v); break;
      case 2: back = &(cout << (unsigned short)v); want += i2s((unsigned short)v); break;
      case 3: back = &(cout << (int)v); want += i2s((int)v); break;
      case 4: back = &(cout << (unsigned)v); want += i2s((unsigned)v); break;
      case 5: back = &(cout << (long long)v); want += i2s((long long)v); break;
      case 6: back = &(cout << (unsigned long long)v); want += std::to_string((unsigned long long)v); break;
      case 7: {
        double d = (double)(int64_t)v / 1024;
        back = &(cout << d);
        want += f2s(d);
        CK(strtod(f2s(d).c_str(), 0) == d, "a double");
        break;
      }
      case 8: {
        float f = (float)(int64_t)v / 16;
        back = &(cout << f);
        want += f2s(f);
        CK(strtof(f2s(f).c_str(), 0) == f, "a float");
        break;
      }
      case 9: {
        std::string t = random_text(r, false);
        back = &(cout << t.c_str());
        want += t;
        h = ck::hashmem(t.data(), t.size(), h);
        break;
      }
      case 10: {
        std::string t = random_text(r, false);
        back = &(cout << nanostl::string(t.c_str()));
        want += t;
        h = ck::hashmem(t.data(), t.size(), h);
        break;
      }
      case 11: back = &(cout << nullptr << ", " << (int)v << "; "); want += "nullptr, " + i2s((int)v) + "; "; break;
      case 12:
        back = &cout.flush();
        flushed = want.size();
        ck::count("flushes of cout in the middle");
        break;
    }
    CK(back == &cout, "<< returned another stream");
  }
  cout.flush();
  if (r.chance(1, 2)) cout.flush();  // there's nothing left to write
  fflush(stdout);
  std::string got(want.size() + 4096, '\0');
  ssize_t n = pread(fd, &got[0], got.size(), 0);
  CK(n >= 0, "the scratch file");
  got.resize((size_t)n);
  if (got != want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    ck::fail("cout gave %zu bytes instead of %zu; the first difference is at %zu (after ...%s)", got.size(), want.size(), i,
             ck::json_str(want.substr(i > 20 ? i - 20 : 0, 20)).c_str());
  }
  (void)flushed;
  ck::count("cout sequences");
  ck::count("bytes through cout", want.size());
  if (id % 1000 == 0) ck::sample(ck::last_ops(6) + " gives " + want.substr(0, 100));
  ck::eval(h, __builtin_popcount(kinds) >= 3);
}
}  // namespace

int main(int argc, char** argv) {
  ck::init(argc, argv, "P22");
  char path[] = "./stdout-XXXXXX";
  fd = mkstemp(path);
  if (fd < 0) ck::harness_error("no scratch file");
  unlink(path);
  int out = dup(1);
  fflush(stdout);
  if (out < 0 || dup2(fd, 1) < 0) ck::harness_error("stdout can't be redirected");
  ck::Rng r = ck::rng();
  const unsigned N = ck::st().thorough ? 400000 : 2500;
  for (unsigned i = 0; i < N; i++) {
    ck::begin_case("stringstream case %u", i);
    stringstreams(r, i);
    ck::begin_case("cout case %u", i);
    couts(r, i);
  }
  fflush(stdout);
  dup2(out, 1);
  return ck::finish();
}
