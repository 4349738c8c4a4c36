#!/usr/bin/env python3
"""P15, P33: programs of random compile-time facts. Run by run.py like any harness, with the options of common.h.
--mode facts: traits of random types and random ratios, computed by nanostl and by the standard library.
--mode sequences: the sequences of integers of tao/seq, compared with what the generator computed."""
import array, collections, hashlib, json, math, os, random, shutil, signal, subprocess, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
opt = dict(zip([a.lstrip('-') for a in sys.argv[1::2]], sys.argv[2::2]))
seed, shard, nshards = int(opt.get('seed', 1)), int(opt.get('shard', 0)), int(opt.get('nshards', 1))
tier, out, mode = opt.get('tier', 'quick'), opt.get('out', ''), opt['mode']
programs = int(opt.get('programs', 5)) * (8 if tier == 'thorough' else 1)
rng = random.Random('%d/%d/%s' % (seed, shard, mode))
work = tempfile.mkdtemp(prefix='p15-', dir=os.path.dirname(out) or None)
cov = {'evaluations': 0, 'enumerated': 0, 'counters': collections.Counter(), 'maxima': {}, 'samples': []}
hashes = set()


def finish(code=0, text=''):
    if text:
        print(text)
    shutil.rmtree(work, ignore_errors=True)
    if code == 0 and out:
        json.dump(cov, open(out, 'w'))
        with open(out + '.hashes', 'wb') as f:
            array.array('Q', sorted(hashes)).tofile(f)
    elif code == 0:
        print(cov, len(hashes))
    sys.exit(code)


signal.signal(signal.SIGTERM, lambda *a: finish(2, 'HARNESS-ERROR: terminated'))


def sh(cmd, timeout=200):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return 'timeout', ''
    return p.returncode, o.decode('utf-8', 'replace')


def note(kind, text, nontrivial=True):
    cov['evaluations'] += 1
    cov['counters'][kind] += 1
    if nontrivial:
        hashes.add(int.from_bytes(hashlib.blake2b(text.encode(), digest_size=8).digest(), 'little'))
    if len(cov['samples']) < 3 and nontrivial and rng.random() < 0.05:
        cov['samples'].append(text[:300])


# ---------------------------------------------------------------------------------------------- facts
FACTS = r'''
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <limits>
#include <ratio>
#include <type_traits>
#ifdef REFERENCE
namespace nano = std;
#else
#include "nanolimits.h"
#include "nanoratio.h"
#include "nanotype_traits.h"
namespace nano = nanostl;
#endif
struct Empty {};
struct Pod { int a; char b; int m(); };
struct Base { virtual ~Base() {} };
struct Derived : Base {};
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly&&) noexcept {} MoveOnly& operator=(MoveOnly&&) noexcept { return *this; } };
struct Loud { Loud() {} Loud(const Loud&) {} Loud(Loud&&) {} Loud& operator=(Loud&&) { return *this; } Loud& operator=(const Loud&) { return *this; } };
struct FromInt { FromInt(int) {} };
struct ToInt { operator int() const { return 0; } };
struct Explicit { explicit Explicit(int) {} };
struct NoCopy { NoCopy() {} NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; };
union Uni { int a; float b; };
enum Enum { E1 };
enum class EnumC : short { E1 };
template <class T> struct Box { T* p; };
static const char* now = "";
static void fail(const char* w, int l) { printf("ORACLE: %s differs, line %d: %s\n", w, l, now); exit(3); }
#define B1(x) if (bool(nano::x<T>::value) != bool(std::x<T>::value)) fail(#x, __LINE__);
#define T1(x) if (!std::is_same<typename nano::x<T>::type, typename std::x<T>::type>::value) fail(#x, __LINE__);
#define B2(x) if (bool(nano::x<A, B>::value) != bool(std::x<A, B>::value)) fail(#x, __LINE__);
template <class T> void any(const char* n) {
  now = n;
  B1(is_void) B1(is_array) B1(is_integral) B1(is_floating_point) B1(is_arithmetic) B1(is_signed) B1(is_unsigned)
  B1(is_lvalue_reference) B1(is_rvalue_reference) B1(is_reference) B1(is_const) B1(is_function) B1(is_union) B1(is_class)
  B1(is_pointer) B1(is_member_pointer) B1(is_member_function_pointer) B1(is_enum) B1(is_scalar) B1(is_object) B1(is_empty) B1(is_abstract) B1(is_destructible)
  T1(remove_const) T1(remove_volatile) T1(remove_cv) T1(remove_extent) T1(remove_all_extents) T1(remove_reference)
  T1(add_pointer) T1(decay) T1(add_lvalue_reference) T1(add_rvalue_reference) T1(add_const)
  B1(is_default_constructible) B1(is_copy_constructible) B1(is_move_constructible) B1(is_copy_assignable) B1(is_move_assignable)
  B1(is_nothrow_copy_assignable) B1(is_nothrow_move_assignable)
}
template <class T> void notarray(const char* n) {
  now = n;
  B1(is_nothrow_copy_constructible) B1(is_nothrow_move_constructible)
}
template <class A, class B> void two(const char* n) {
  now = n;
  B2(is_same) B2(is_convertible) B2(is_constructible)
  if (bool(nano::is_assignable<A, B>::value) != bool(std::is_assignable<A, B>::value)) fail("is_assignable", __LINE__);
}
template <class A, class B> void common(const char* n) {
  now = n;
  if (!std::is_same<typename nano::common_type<A, B>::type, typename std::common_type<A, B>::type>::value) fail("common_type", __LINE__);
}
template <class N, class S> void rat(const char* n) {
  now = n;
  const long long a = N::num, b = N::den, c = N::type::num, d = N::type::den;
  if (a != S::num || b != S::den || c != a || d != b) fail("ratio", __LINE__);
}
int main() {
@BODY@
  return 0;
}
'''
BASE = ['bool', 'char', 'signed char', 'unsigned char', 'wchar_t', 'char16_t', 'char32_t', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long',
        'unsigned long long', 'float', 'double', 'long double', 'Empty', 'Pod', 'Base', 'Derived', 'MoveOnly', 'Loud', 'FromInt', 'ToInt', 'Explicit', 'NoCopy', 'Uni', 'Enum', 'EnumC',
        'Box<int>', 'Box<Base>', 'std::nullptr_t', 'std::string']


class Types:
    """Random types as chains of typedefs."""
    def __init__(self):
        self.lines, self.n = [], 0

    def new(self, decl):
        name = 'Y%d' % self.n
        self.n += 1
        self.lines.append('  typedef %s;' % decl.replace('@', name))
        return name

    def make(self, depth):
        t, kind, text = rng.choice(BASE), 'o', None   # o object, a array, v void, f function, r reference, u array of unknown bound
        if rng.random() < 0.05:
            t, kind = 'void', 'v'
        text = t
        for _ in range(depth):
            r = rng.random()
            if kind == 'r':
                break
            if r < 0.28:
                t, kind, text = self.new('%s* @' % t), 'o', 'pointer to ' + text
            elif r < 0.5 and kind != 'f':
                q = rng.choice(['const', 'volatile', 'const volatile'])
                t, text = self.new('%s %s @' % (t, q)), q + ' ' + text
            elif r < 0.62 and kind in 'oa':
                n = rng.choice([1, 2, 3, 7])
                t, kind, text = self.new('%s @[%d]' % (t, n)), 'a', 'array of %d ' % n + text
            elif r < 0.66 and kind in 'oa':
                t, kind, text = self.new('%s @[]' % t), 'u', 'array of unknown bound of ' + text
            elif r < 0.76 and kind in 'ov':
                args = rng.choice(['', 'int', '...', 'int, char*', 'Pod, ...', 'Pod&'])
                t, kind, text = self.new('%s @(%s)' % (t, args)), 'f', 'function(%s) of ' % args + text
            elif r < 0.82 and kind in 'ofa':
                t, kind, text = self.new('%s Pod::*@' % t), 'o', 'member pointer to ' + text
            elif r < 0.92 and kind != 'v':
                ref = rng.choice(['&', '&&'])
                t, kind, text = self.new('%s%s @' % (t, ref)), 'r', ref + ' ' + text
        return t, kind, text


def ratio_value():
    k = rng.random()
    if k < 0.3:
        v = rng.randrange(1, 1000)
    elif k < 0.6:
        v = rng.randrange(1, 1 << rng.randrange(2, 63))
    elif k < 0.8:
        v = 1
        while True:
            f = rng.choice([2, 3, 5, 7, 10, 60, 1000, 1000003, 97])
            if v * f >= (1 << 63) or rng.random() < 0.1:
                break
            v *= f
    else:
        v = (1 << 63) - 1 - rng.randrange(0, 30)
    return v * rng.choice([1, 1, -1])


def facts():
    ty, body = Types(), []
    made = []
    for _ in range(60):
        made.append(ty.make(rng.randrange(0, 6)))
    for t, kind, text in made:
        body.append('  any<%s>("%s");' % (t, text))
        if 'array' not in text:  # C++20 initializes arrays with parentheses, where g++ is not sure itself
            body.append('  notarray<%s>("%s");' % (t, text))
        note('types', text, ' ' in text)
    for _ in range(60):
        (a, ka, ta), (b, kb, tb) = rng.choice(made), rng.choice(made)
        if rng.random() < 0.4:  # related types
            b, kb, tb = ty.make(0)
            if kb == 'v':
                continue
            q = rng.choice(['const %s', '%s&', '%s&&', 'const %s&', '%s*', 'const %s*', 'volatile %s&'])
            a = rng.choice(['%s', '%s&', '%s&&', 'const %s&', '%s*', 'const %s*'])
            a, ka, ta = ty.new((a % b) + ' @'), 'o', a % tb
            b, kb, tb = ty.new((q % b) + ' @'), 'o', q % tb
        if 'unknown bound' in ta + tb or ka in 'ar' and 'array' in ta:
            continue
        body.append('  two<%s, %s>("%s; %s");' % (a, b, ta, tb))
        note('pairs of types', ta + ';' + tb)
    for _ in range(20):
        a, b = rng.choice(BASE[:18]), rng.choice(BASE[:18])
        body.append('  common<%s%s, %s%s>("%s, %s");' % (rng.choice(['', 'const ', 'volatile ']), a, rng.choice(['', 'const ']), b, a, b))
    for _ in range(120):
        n, d = ratio_value(), ratio_value()
        if rng.random() < 0.4:
            g = rng.randrange(1, 1 << rng.randrange(1, 40))
            n2, d2 = n * g, d * g
            if abs(n2) < 1 << 63 and abs(d2) < 1 << 63:
                n, d = n2, d2
        body.append('  rat<nano::ratio<%dLL, %dLL>, std::ratio<%dLL, %dLL> >("%d/%d");' % (n, d, n, d, n, d))
        note('ratios', '%d/%d' % (n, d), math.gcd(n, d) > 1)
    return FACTS.replace('@BODY@','\n'.join(ty.lines + body)), True


# ---------------------------------------------------------------------------------------------- sequences
SEQ = r'''
#include <cstdio>
#include <cstdlib>
#include <type_traits>
#include <vector>
#include "tao/seq/at_index.hpp"
#include "tao/seq/exclusive_scan.hpp"
#include "tao/seq/inclusive_scan.hpp"
#include "tao/seq/integer_sequence.hpp"
#include "tao/seq/is_all.hpp"
#include "tao/seq/make_integer_sequence.hpp"
#include "tao/seq/map.hpp"
#include "tao/seq/minus.hpp"
#include "tao/seq/partial_sum.hpp"
#include "tao/seq/plus.hpp"
#include "tao/seq/select.hpp"
#include "tao/seq/sum.hpp"
#include "tao/seq/zip.hpp"
namespace s = tao::seq;
template <class T, T... Ns> std::vector<T> values(s::integer_sequence<T, Ns...>) { const T v[] = {Ns..., T(0)}; return std::vector<T>(v, v + sizeof...(Ns)); }
template <int> struct Tag {};
struct Max { template <class T, T A, T B> using apply = std::integral_constant<T, (A < B ? B : A)>; };
static void fail(const char* w, int l) { printf("ORACLE: %s, line %d\n", w, l); exit(3); }
template <class S, class T> void check(const char* w, int l, const std::vector<T>& want) {
  if (!std::is_same<typename S::value_type, T>::value) fail("the value type of a sequence is another", l);
  if (S::size() != want.size()) fail("the size of a sequence is wrong", l);
  if (values(S()) != want) fail(w, l);
}
template <class T> void iota(const std::vector<T>& v, std::size_t n, int l) {
  if (v.size() != n) fail("make_integer_sequence has another length", l);
  for (std::size_t i = 0; i < n; i++) if (v[i] != T(i)) fail("make_integer_sequence is not 0, 1, 2...", l);
}
int main() {
@BODY@
  return 0;
}
'''
ITYPES = {'int': (-1, 31), 'unsigned': (0, 32), 'long': (-1, 63), 'unsigned long': (0, 64), 'long long': (-1, 63), 'unsigned long long': (0, 64)}


def lit(t, v):
    suf = {'int': '', 'unsigned': 'u', 'long': 'l', 'unsigned long': 'ul', 'long long': 'll', 'unsigned long long': 'ull'}[t]
    return '%d%s' % (v, suf)


def rank(t):
    return 3 if 'long long' in t else 2 if 'long' in t else 1


def common(t, u):
    """The usual arithmetic conversions (LP64)."""
    if ITYPES[t][0] == ITYPES[u][0]:
        return max(t, u, key=rank)
    sg, us = (t, u) if ITYPES[t][0] else (u, t)
    if rank(us) >= rank(sg):
        return us
    return sg if ITYPES[sg][1] >= ITYPES[us][1] else 'unsigned ' + sg


def sequences():
    body = []

    def seq(t, n, lo, hi):
        return [rng.randrange(lo, hi) for _ in range(n)]

    def text(t, v):
        return 's::integer_sequence<%s>' % ', '.join([t] + [lit(t, x) for x in v])

    def vec(t, v):
        return 'std::vector<%s>{%s}' % (t, ', '.join(lit(t, x) for x in v))

    def check(kind, e, t, v):
        body.append('  check<%s, %s>("%s", __LINE__, %s);' % (e, t, kind, vec(t, v)))
        note(kind, e, len(v) > 1)

    for _ in range(24):
        t = rng.choice(list(ITYPES))
        n = rng.choice([rng.randrange(0, 20), rng.randrange(0, 300), rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]) + rng.randrange(-1, 2), rng.randrange(1000, 2500)] + ([rng.randrange(2500, 20000)] if rng.random() < .2 else []))
        body.append('  iota<%s>(values(s::make_integer_sequence<%s, %d>()), %d, __LINE__);' % (t, t, n, n))
        note('make_integer_sequence', '%s %d' % (t, n), n > 1)
    for _ in range(6):
        n = rng.randrange(0, 40)
        body.append('  iota<nanostl::size_t>(values(s::index_sequence_for<%s>()), %d, __LINE__);' % (', '.join('Tag<%d>' % rng.randrange(5) for _ in range(n)), n))
    for _ in range(40):
        t = rng.choice(list(ITYPES))
        lo, bits = ITYPES[t]
        n = rng.choice([0, 1, 2, 3, rng.randrange(0, 12), rng.randrange(0, 40)])
        m = rng.choice([2, 10, 1000, 1000000, (1 << 31) // (n + 1) - 1])
        u = rng.choice([t, t, rng.choice([k for k in ITYPES if ITYPES[k][0] == lo]), rng.choice(list(ITYPES))])
        if ITYPES[u][0] != lo:  # the common type of a signed and an unsigned type may be unsigned
            lo = 0
        v = seq(t, n, -m if lo else 0, m)
        e = text(t, v)
        total = sum(v)
        body.append('  if (s::sum<%s>::value != %s) fail("sum", __LINE__);' % (e, lit(t, total)))
        body.append('  if (s::sum<%s>::value != %s) fail("sum of a pack", __LINE__);' % (', '.join([t] + [lit(t, x) for x in v]), lit(t, total)))
        body.append('  if (!std::is_same<decltype(s::sum<%s>::value), const %s>::value) fail("the type of a sum", __LINE__);' % (e, t))
        note('sum', e, n > 1)
        pre = [0]
        for x in v:
            pre.append(pre[-1] + x)
        i = rng.randrange(0, n + 1)
        body.append('  if (s::partial_sum<%d, %s>::value != %s) fail("partial_sum", __LINE__);' % (i, e, lit(t, pre[i])))
        note('partial_sum', '%d %s' % (i, e), i > 0)
        check('exclusive_scan', 's::exclusive_scan<%s, %s>::type' % (t, ', '.join(lit(t, x) for x in v)) if n else 's::exclusive_scan<%s>::type' % e, t, pre[:-1])
        check('inclusive_scan', 's::inclusive_scan<%s>::type' % (', '.join([t] + [lit(t, x) for x in v])) if n else 's::inclusive_scan<%s>::type' % e, t, pre[1:])
        w = seq(u, n, -m if lo else 0, m)
        if not lo:
            w = [min(a, b) for a, b in zip(v, w)] if rng.random() < .9 else w
        c = common(t, u)
        f = text(u, w)
        check('plus', 's::plus_t<%s, %s>' % (e, f), c, [a + b for a, b in zip(v, w)])
        if lo or all(a >= b for a, b in zip(v, w)):
            check('minus', 's::minus_t<%s, %s>' % (e, f), c, [a - b for a, b in zip(v, w)])
        check('zip', 's::zip_t<Max, %s, %s>' % (e, f), c, [max(a, b) for a, b in zip(v, w)])
        if n:
            i = rng.randrange(n)
            body.append('  if (s::select<%d, %s>::value != %s) fail("select", __LINE__);' % (i, e, lit(t, v[i])))
            note('select', '%d %s' % (i, e), n > 1)
            k = [rng.randrange(n) for _ in range(rng.randrange(0, 10))]
            check('map', 's::map_t<s::index_sequence<%s>, %s>' % (', '.join(map(str, k)), e), t, [v[j] for j in k])
            tags = [rng.randrange(100) for _ in range(n)]
            q = rng.choice(['%s', 'const %s&', '%s*', '%s&&'])
            body.append('  if (!std::is_same<s::at_index_t<%d, %s>, %s>::value) fail("at_index", __LINE__);' % (i, ', '.join(q % ('Tag<%d>' % x) for x in tags), q % ('Tag<%d>' % tags[i])))
            note('at_index', '%d %s' % (i, tags), n > 1)
        bits = [rng.random() < rng.choice([.5, .95, 1]) for _ in range(rng.randrange(0, 12))]
        body.append('  if (s::is_all<%s>::value != %s) fail("is_all", __LINE__);' % (', '.join('true' if x else 'false' for x in bits), 'true' if all(bits) else 'false'))
        note('is_all', str(bits), len(bits) > 1)
    return SEQ.replace('@BODY@','\n'.join(body)), False


for p in range(programs):
    text, reference = (facts if mode == 'facts' else sequences)()
    with open(os.path.join(work, 'p.cc'), 'w') as f:
        f.write(text)
    cc, std = rng.choice(['g++', 'clang++']), rng.choice(['c++11', 'c++14', 'c++17', 'c++20'])
    cmd = [cc, '-std=' + std, '-O0', '-w', '-fbracket-depth=4000' if cc == 'clang++' else '-w', '-ftemplate-depth=3000', '-I' + os.path.join(REPO, 'include'), 'p.cc', '-o', 'p']
    rc, log = sh(cmd)
    if rc != 0:
        if reference:
            r2, _ = sh(cmd + ['-DREFERENCE'])
        else:
            with open(os.path.join(work, 'q.cc'), 'w') as f:
                f.write('int main() { return 0; }\n')
            r2, _ = sh([cc, '-std=' + std, 'q.cc', '-o', 'q'])
        if r2 != 0 or rc == 'timeout':
            finish(2, 'HARNESS-ERROR: the program does not compile with the standard library either\n' + log[:3000])
        finish(3, 'ORACLE: a program of compile-time facts does not compile: %s\n%s' % (' '.join(cmd), '\n'.join(l for l in log.split('\n') if 'error' in l or 'required' in l or 'p.cc' in l)[:3000]))
    rc, log = sh(['./p'])
    if rc != 0:
        line = ''
        if 'line ' in log:
            try:
                line = text.split('\n')[int(log.split('line ')[1].split(':')[0].split()[0]) - 1]
            except (ValueError, IndexError):
                pass
        finish(3, '%s\n%s\n%s' % (log[:2000], line[:2000], ' '.join(cmd)))
    cov['counters']['programs ' + cc + ' ' + std] += 1
finish()
