#!/usr/bin/env python3
"""P29: programs that combine the headers of the library in random ways. Run by run.py like any harness, with the options
of common.h. Every program is built by a real compiler, linked and run under sanitizers; what its translation units report
is compared with fixed expectations."""
import array, collections, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
opt = dict(zip([a.lstrip('-') for a in sys.argv[1::2]], sys.argv[2::2]))
seed, shard, nshards = int(opt['seed']), int(opt['shard']), int(opt['nshards'])
tier, out = opt['tier'], opt['out']
mode = opt.get('mode', 'programs')
rng = random.Random('%d/%d/%s' % (seed, shard, mode))
work = tempfile.mkdtemp(prefix='p29-', dir=os.path.dirname(out))

ENV = dict(os.environ)
# unfinished ports that can not be included yet, see DESIGN.md
UNFINISHED = {'nanoany.h', 'nanoexpected.h', 'nanotypeinfo.h'}
# pieces of other headers, never included by a user directly
PIECES = {'errno.h', 'typeinfo', '__string', '__nullptr', '__hashfunc.h', '__nanostrutil.h'}
cov = {'evaluations': 0, 'enumerated': 0, 'counters': collections.Counter(), 'maxima': {}, 'samples': []}
hashes = array.array('Q')


def finish(code=0, text=''):
    if text:
        print(text)
    shutil.rmtree(work, ignore_errors=True)
    if code == 0:
        json.dump(cov, open(out, 'w'))
        with open(out + '.hashes', 'wb') as f:
            hashes.tofile(f)
    sys.exit(code)


def sh(cmd, timeout=280):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=work)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, _ = p.communicate()
        return 'timeout', o.decode('utf-8', 'replace')
    return p.returncode, o.decode('utf-8', 'replace')


def write(name, text):
    with open(os.path.join(work, name), 'w') as f:
        f.write(text)


def generate():
    """The single header, by the repository's script. The path to look for it."""
    os.mkdir(os.path.join(work, 'single_include'))
    for d in ('include', 'scripts'):
        shutil.copytree(os.path.join(REPO, d), os.path.join(work, d))
    rc, log = sh([sys.executable, 'scripts/generateSingleHeader.py'])
    shutil.rmtree(os.path.join(work, 'include'))
    shutil.rmtree(os.path.join(work, 'scripts'))
    if rc != 0 or not os.path.exists(os.path.join(work, 'single_include', 'nanostl.h')):
        rc2, _ = sh([sys.executable, '-c', 'import re, datetime'])
        finish(3 if rc2 == 0 else 2, 'scripts/generateSingleHeader.py ended with %s\n%s' % (rc, log[-4000:]))
    return os.path.join(work, 'single_include')


COMPILERS = [(cc, std) for cc in ('g++', 'clang++') for std in (11, 14, 17, 20)]


# ---- every header alone -------------------------------------------------------------------------------------------------
def alone():
    inc = os.path.join(REPO, 'include')
    headers = sorted(h for h in os.listdir(inc) if os.path.isfile(os.path.join(inc, h)) and h not in UNFINISHED | PIECES and not h.startswith('.'))
    headers += ['fast_float/fast_float.h']
    jobs = [(h, cc, std, how) for h in headers for cc, std in COMPILERS for how in ('', '-nostdinc++', '-fno-exceptions -fno-rtti')]
    if mode == 'single':
        headers = ['nanostl.h']
        jobs = [('nanostl.h', cc, std, how) for cc, std in COMPILERS for how in ('', '-nostdinc++', '-fno-exceptions -fno-rtti', '-DNANOSTL_NO_THREAD -DNDEBUG', '-DNANOSTL_PSTL')
                if std >= 17 or how != '-DNANOSTL_PSTL']
    elif tier == 'quick':
        # every header with every compiler and dialect, in one of the ways each
        jobs = [j for i, j in enumerate(jobs) if (i // 3 + i // 24) % 3 == i % 3]
    for i, (h, cc, std, how) in enumerate(jobs):
        if i % nshards != shard:
            continue
        if how == '-nostdinc++' and h.startswith('fast_float'):
            how = '-fno-rtti'
        # twice, and a second unit that is linked with the first: nothing may be defined twice
        impl = '#define NANOSTL_IMPLEMENTATION\n' if rng.random() < .3 else ''
        write('a.cc', impl + '#include "%s"\n#include "%s"\nint other();\nint main() { return other(); }\n' % (h, h))
        write('b.cc', '#include "%s"\nint other() { return 0; }\n' % h)
        cmd = [cc, '-std=c++%d' % std, '-w', '-O0', '-I', single or inc] + how.split() + ['-c']
        for f in ('a', 'b'):
            rc, log = sh(cmd + [f + '.cc', '-o', f + '.o'])
            if rc != 0:
                usable(cc, std)
                finish(3, '%s can not be included alone: %s\n%s' % (h, ' '.join(cmd), log[:6000]))
        rc, log = sh([cc, 'a.o', 'b.o', '-pthread', '-o', 'prog'])
        if rc != 0:
            usable(cc, std)
            finish(3, 'two units that include %s do not link: %s\n%s' % (h, ' '.join(cmd), log[:6000]))
        rc, log = sh([os.path.join(work, 'prog')], 60)
        if rc != 0:
            finish(3, 'a program that includes %s ended with %s\n%s' % (h, rc, log[:3000]))
        cov['evaluations'] += 1
        cov['enumerated'] += 1
        cov['counters']['headers alone' if mode != 'single' else 'single header alone'] += 1


def usable(cc, std):
    """Leaves with 'can not run here' when the compiler itself does not work."""
    write('sanity.cc', '#include <vector>\nint main() { std::vector<int> v(1); return v[0]; }\n')
    rc, log = sh([cc, '-std=c++%d' % std, '-w', 'sanity.cc', '-o', 'sanity'])
    if rc != 0:
        finish(2, log)


# ---- what each header offers: [(expression, value)] after some set-up ----------------------------------------------------
# @ is a name of its own for each translation unit
S = {}


def snip(header, decl, setup, *facts, **kw):
    S.setdefault(header, []).append(dict(decl=decl, setup=setup, facts=facts, **kw))


snip('nanovector.h', 'static nanostl::vector<int> global_@;\n',
     '''nanostl::vector<int> v; for (int i = 0; i < 20; i++) v.push_back(i * i);
  nanostl::vector<int> w(v); w.erase(w.begin()); w.pop_back(); global_@.push_back(9); global_@ = w; v.swap(w);''',
     ('v.size()', 18), ('w.size()', 20), ('v[17]', 18 * 18), ('global_@.size()', 18), ('w.at(19)', 361))
snip('nanostring.h', '',
     'nanostl::string s("abc"), t = s + "def"; t += s; nanostl::string u = nanostl::to_string(-17) + nanostl::to_string(0.5f) + nanostl::to_string(2.5e-7);',
     ('t.size()', 9), ('t == nanostl::string("abcdefabc")', 1), ('s < t', 1), ('u == nanostl::string("-175E-12.5E-7")', 1), ('s.c_str()[3]', 0),
     ('nanostl::stof("1.5") == 1.5f', 1), ('nanostl::stod("-2.25") == -2.25', 1), ('nanostl::stof("x") != nanostl::stof("x")', 1))
snip('nanomap.h', '', 'nanostl::map<int, int> m; for (int i = 0; i < 50; i++) m[(i * 37) % 50] = i; int last = -1, sorted = 1; for (nanostl::map<int, int>::iterator it = m.begin(); it != m.end(); ++it) { if (it->first <= last) sorted = 0; last = it->first; }\n'
     '  nanostl::map<int, int> n(m); n[1000] = 1;',
     ('sorted', 1), ('last', 49), ('m[37]', 1), ('n.find(1000)->second', 1), ('m.find(1000) == m.end()', 1))
snip('nanolimits.h', '', '',
     ('nanostl::numeric_limits<int>::max()', 2147483647), ('nanostl::numeric_limits<int>::min() + 1', -2147483647), ('nanostl::numeric_limits<unsigned char>::max()', 255),
     ('nanostl::numeric_limits<float>::max() > 3.4e38f', 1), ('nanostl::numeric_limits<double>::denorm_min() > 0', 1), ('nanostl::numeric_limits<double>::digits10', 15),
     ('nanostl::numeric_limits<float>::infinity() > nanostl::numeric_limits<float>::max()', 1), ('nanostl::numeric_limits<float>::quiet_NaN() != nanostl::numeric_limits<float>::quiet_NaN()', 1))
snip('nanoalgorithm.h', '', 'int a[5] = {3, 1, 4, 1, 5}; int *top = nanostl::max_element(a, a + 4); int b[3]; nanostl::fill(b, b + 3, 7);',
     ('nanostl::min(2, 3)', 2), ('nanostl::max(2, 3)', 3), ('top - a', 2), ('b[0] + b[1] + b[2]', 21))
snip('nanomath.h', '', '',
     ('nanostl::isnan(0.0f)', 0), ('nanostl::isfinite(1.0f)', 1), ('nanostl::fabs(-2.0f) == 2.0f', 1), ('nanostl::ceil(1.25f) == 2.0f', 1), ('nanostl::floor(-1.25f) == -2.0f', 1),
     ('nanostl::sqrt(4.0f) > 1.99f && nanostl::sqrt(4.0f) < 2.01f', 1), ('nanostl::exp(0.0f) > 0.99f', 1), ('nanostl::pow(2.0f, 3.0f) > 7.9f', 1))
snip('nanoiostream.h', '', 'nanostl::cout << "cout @ "; nanostl::cout << 12; nanostl::cout << " "; nanostl::cout << nanostl::string("ok"); nanostl::cout << "\\n"; nanostl::cout.flush();',
     ('1', 1), text='cout @ 12 ok')
snip('nanostl.h', 'static nanostl::map<nanostl::string, nanostl::vector<int> > all_@;\n', 'all_@["b"].push_back(1); all_@["a"].push_back(2); all_@["b"].push_back(3);',
     ('all_@.empty()', 0), ('all_@["b"].size()', 2), ('all_@.begin()->first == nanostl::string("a")', 1), ('nanostl::max(1, 2)', 2), ('nanostl::numeric_limits<char>::max() >= 127', 1),
     ('nanostl::isinf(1.0f)', 0))
snip('nanooptional.h', '', 'nanostl::optional<int> o, p(4); o = p; o = 5; nanostl::optional<int> q; q.swap(p);',
     ('o.has_value()', 1), ('*o', 5), ('p.has_value()', 0), ('*q', 4), ('p.value_or(6)', 6), ('o > q', 1))
snip('nanovariant.h', '', 'nanostl::variant<int, double> x(1.5), y(7); x = y; y = 2.5;',
     ('x.index()', 0), ('y.index()', 1), ('nonstd::get<int>(x)', 7), ('nonstd::get<double>(y) == 2.5', 1), ('nonstd::holds_alternative<int>(y)', 0))
snip('nanotuple.h', '', 'nanostl::tuple<int, char, double> t(1, 2, 3.0), u(1, 2, 4.0);',
     ('t < u', 1), ('t == u', 0), ('tao::get<1>(t)', 2), ('(t.swap(u), tao::get<2>(t) == 4.0)', 1))
snip('nanomemory.h', 'struct Counted_@ { int *n; explicit Counted_@(int *p) : n(p) {} ~Counted_@() { ++*n; } };\n',
     'int n = 0; { nanostl::unique_ptr<Counted_@> a(new Counted_@(&n)), b(nanostl::move(a)); R("gone", !a); a.swap(b); nanostl::unique_ptr<Counted_@[]> c; b.reset(new Counted_@(&n)); b.reset(); }',
     ('n', 2))
snip('nanoutility.h', '', 'int a = 1, b = 2; nanostl::swap(a, b); nanostl::pair<int, char> p = nanostl::make_pair(3, \'c\'), q(nanostl::move(p));',
     ('a * 10 + b', 21), ('q.first', 3), ('q == p', 1), ('nanostl::forward<int>(a)', 2))
snip('nanotype_traits.h', '', '',
     ('(nanostl::is_same<int, nanostl::remove_reference<int &>::type>::value)', 1), ('nanostl::is_const<const int>::value', 1), ('nanostl::is_integral<double>::value', 0),
     ('(nanostl::is_convertible<int, double>::value)', 1), ('nanostl::is_move_constructible<int>::value', 1),
     ('(nanostl::is_same<nanostl::decay<int[3]>::type, int *>::value)', 1))
snip('nanofunctional.h', '', '', ('nanostl::less<int>()(1, 2)', 1), ('nanostl::less<int>()(2, 2)', 0), ('nanostl::hash<int>()(3) == nanostl::hash<int>()(3)', 1), needs_hash=True)
snip('nanoratio.h', '', 'typedef nanostl::ratio<6, -4> r;', ('r::num', -3), ('r::den', 2), ('nanostl::milli::den', 1000))
snip('nanovalarray.h', '', 'nanostl::valarray<float> v(5); for (int i = 0; i < 5; i++) v[i] = i; nanostl::valarray<float> w(v); w[2] = 9; v.swap(w);', ('v.size()', 5), ('v[2] == 9.0f', 1), ('w[2] == 2.0f', 1))
snip('nanosstream.h', '', 'nanostl::stringstream ss; ss << nanostl::string("ab"); ss << nanostl::string("cd");', ('ss.str().size()', 4), ('ss.str() == nanostl::string("abcd")', 1))
snip('nanothread.h', 'static int run_@(int *p) { *p = 42; return 0; }\nstruct Job_@ { int *p; void operator()() { run_@(p); } };\n',
     'int got = 0; (void)got;', ('1', 1))
snip('nanochrono.h', '', 'nanostl::chrono::milliseconds ms; (void)ms;', ('sizeof ms >= 1', 1))
snip('nanoiterator.h', '', 'int a[4] = {};', ('nanostl::distance(a, a + 4)', 4), ('sizeof(nanostl::iterator_traits<int *>::value_type)', 4))
snip('nanocstdint.h', '', '', ('sizeof(nanostl::int64_t)', 8), ('sizeof(nanostl::uint8_t)', 1), ('(nanostl::uint8_t)~(nanostl::uint8_t)0', 255), ('(nanostl::int16_t)-1 < 0', 1))
snip('nanocommon.h', '', '', ('(nanostl::size_t)-1 > 0', 1), ('sizeof(nanostl::size_t) >= sizeof(void *)', 1))
snip('nanocstring.h', '', 'char a[4] = "xyz", b[4] = ""; nanostl::memcpy(b, a, 4);', ('b[2]', ord('z')), ('b[3]', 0))
snip('nanoallocator.h', '', 'nanostl::allocator<int> al; int *p = al.allocate(5); p[4] = 3; int got = p[4]; al.deallocate(p, 5);', ('got', 3))
snip('nanocassert.h', '', 'assert(1 + 1 == 2);', ('1', 1))
snip('nanoinitializer_list.h', '', 'nanostl::initializer_list<int> il;', ('il.size()', 0), ('il.begin() == il.end()', 1))
snip('nanosystem_error.h', '', 'errno = 0;', ('errno', 0), ('EINTR != 0', 1), ('(int)nanostl::errc::invalid_argument == EINVAL', 1))
# what these declare can be named; with NANOSTL_NO_THREAD the first two declare nothing
snip('nanoatomic.h', '#ifndef NANOSTL_NO_THREAD\nstatic nanostl::atomic<int> *atomic_@ = 0;\n#else\nstatic int *atomic_@ = 0;\n#endif\n', '', ('atomic_@ == 0', 1))
snip('nanomutex.h', '#ifndef NANOSTL_NO_THREAD\nstatic nanostl::mutex mutex_@;\n#else\nstatic char mutex_@;\n#endif\n', '', ('sizeof mutex_@ > 0', 1))
snip('nanoexception.h', 'struct Bad_@ : nanostl::exception {};\nstatic Bad_@ *bad_@ = 0;\n', 'nanostl::exception *base = bad_@; void (*t)() = nanostl::terminate;', ('base == 0', 1), ('t != 0', 1))
snip('nanoexecution.h', '#ifdef NANOSTL_PSTL\nstatic nanostl::execution::parallel_policy par_@ = nanostl::execution::par;\n#else\nstatic char par_@;\n#endif\n', '', ('sizeof par_@ > 0', 1))
snip('nanoios.h', '', '', ('nanostl::ios_base::adjustfield == (nanostl::ios_base::left | nanostl::ios_base::right | nanostl::ios_base::internal)', 1), ('nanostl::ios_base::goodbit', 0),
     ('nanostl::ios_base::basefield == (nanostl::ios_base::dec | nanostl::ios_base::oct | nanostl::ios_base::hex)', 1), ('nanostl::ios_base::in & nanostl::ios_base::out', 0))
snip('nanoiosfwd.h', 'static nanostl::ostream *stream_@ = 0;\nstatic nanostl::streambuf *buf_@ = 0;\n', '', ('stream_@ == 0', 1), ('buf_@ == 0', 1))
snip('nanostdexcept.h', 'static nanostl::logic_error *error_@ = 0;\n', '', ('error_@ == 0', 1), ('sizeof(nanostl::logic_error) > 0', 1))
snip('nanostreambuf.h', 'static nanostl::basic_streambuf<char> *sbuf_@ = 0;\n', '', ('sbuf_@ == 0', 1))
snip('nanocstddef.h', '', 'nanostl::size_t n = 3;', ('n', 3))
snip('fast_float/fast_float.h', '', 'double d = 0; const char *t = "1.25e2,"; fast_float::from_chars_result r = fast_float::from_chars(t, t + 7, d);', ('d == 125.0', 1), ('r.ptr - t', 6), std=True)

NEED_STD = ('fast_float/fast_float.h', 'nanooptional.h', 'nanovariant.h')

# combinations: several headers
COMBO = [
    (('nanovector.h', 'nanostring.h'), '', 'nanostl::vector<nanostl::string> v; for (int i = 0; i < 9; i++) v.push_back(nanostl::to_string(i * 100)); nanostl::vector<nanostl::string> w(v); w[3] += "!"; v.erase(v.begin());',
     (('v.size()', 8), ('w[3] == nanostl::string("300!")', 1), ('v[0] == nanostl::string("100")', 1))),
    (('nanomap.h', 'nanovector.h'), '', 'nanostl::map<int, nanostl::vector<int> > m; for (int i = 0; i < 9; i++) m[i % 3].push_back(i); nanostl::map<int, nanostl::vector<int> > n(m); n[0].clear();', (('m[0].size()', 3), ('n[0].size()', 0), ('m[2][1]', 5))),
    (('nanooptional.h', 'nanostring.h'), '', 'nanostl::optional<nanostl::string> o, p; o = nanostl::string("x"); p = o; o.reset();', (('p->size()', 1), ('o.has_value()', 0))),
    (('nanovariant.h', 'nanostring.h', 'nanovector.h'), '', 'nanostl::variant<int, nanostl::string, nanostl::vector<int> > x(1); x = nanostl::string("xy"); nanostl::variant<int, nanostl::string, nanostl::vector<int> > y(x); nanostl::vector<int> three; three.resize(3); x = three;',
     (('x.index()', 2), ('nonstd::get<nanostl::string>(y).size()', 2), ('nonstd::get<2>(x).size()', 3))),
    (('nanotuple.h', 'nanostring.h', 'nanomemory.h'), '', 'nanostl::tuple<nanostl::string, nanostl::unique_ptr<int> > t(nanostl::string("k"), nanostl::unique_ptr<int>(new int(3))); nanostl::tuple<nanostl::string, nanostl::unique_ptr<int> > u(nanostl::move(t));',
     (('*tao::get<1>(u)', 3), ('tao::get<0>(u).size()', 1), ('!tao::get<1>(t)', 1))),
    (('nanovalarray.h', 'nanomath.h'), '', 'nanostl::valarray<float> v(3); v[0] = 0; v[1] = 0.5f; v[2] = -0.5f; nanostl::valarray<float> s = nanostl::sin(v);', (('s.size()', 3), ('s[0] == 0.0f', 1), ('s[1] > 0.479f && s[1] < 0.480f', 1), ('s[2] < 0', 1))),
    (('nanomap.h', 'nanofunctional.h', 'nanoalgorithm.h', 'nanoutility.h'), '', 'nanostl::map<char, int> m; m.insert(nanostl::pair<const char, int>(\'a\', nanostl::max(1, 2)));', (('m[\'a\']', 2), ('m.find(\'b\') == m.end()', 1))),
]

# with the standard library in the same unit
STD_HEADERS = ['memory', 'functional', 'typeinfo', 'string', 'vector', 'map', 'iostream', 'sstream', 'thread', 'mutex', 'atomic', 'exception', 'stdexcept', 'system_error', 'cerrno', 'cmath', 'algorithm', 'valarray',
               'tuple', 'utility', 'chrono', 'iterator', 'limits', 'new', 'type_traits', 'unordered_map', 'cstring', 'cstdint', 'condition_variable', 'initializer_list', 'errno.h', 'math.h', 'stdlib.h', 'string.h', 'stdint.h', 'assert.h', 'ratio', 'complex']
# without the wrapper of the C++ standard library, C's math.h defines isnan as a macro
C_HEADERS = ['errno.h', 'math.h', 'stdlib.h', 'string.h', 'stdint.h', 'assert.h', 'stdio.h', 'stddef.h', 'limits.h', 'float.h', 'time.h']
STD_COMBO = [
    (('nanovector.h', 'nanomap.h', 'nanomemory.h', 'nanoutility.h'), ('string', 'vector'),
     'template <class T> static long stdmix_@(const T &a, const T &b) {\n'
     '  nanostl::vector<T> v; v.push_back(a); v.push_back(b); v.push_back(v[0]); v.resize(7); v.erase(v.begin()); v.pop_back(); nanostl::vector<T> w(v); w = v; nanostl::swap(v, w); w.assign(v.begin(), v.end()); w.clear();\n'
     '  nanostl::map<T, T> m; m[a] = b; m.insert(nanostl::pair<const T, T>(b, a)); nanostl::map<T, T> m2(m); m2 = m;\n'
     '  nanostl::unique_ptr<T> p(new T(a)), q(nanostl::move(p)); p.swap(q); nanostl::swap(p, q); p = nanostl::move(q); nanostl::unique_ptr<T[]> r(new T[2]), s(nanostl::move(r)); r.swap(s);\n'
     '  T c(a), d(nanostl::move_if_noexcept(c)); nanostl::swap(c, d); nanostl::pair<T, T> pp = nanostl::make_pair(a, b);\n'
     '  return (v[0] == b) * 100000 + (*p == a) * 10000 + (m[b] == a) * 1000 + (m2.find(b)->second == a) * 100 + (pp.first == a) * 10 + (d == T() || d == a);\n}\n', '',
     (('stdmix_@(std::string("a"), std::string("b"))', 111111), ('stdmix_@(std::vector<int>(2), std::vector<int>(3))', 111111))),
    (('nanooptional.h', 'nanotuple.h', 'nanovariant.h'), ('string',), '',
     'nanostl::optional<std::string> o(std::string("abc")), p; p = o; o.swap(p); nanostl::tuple<std::string, int> t(std::string("q"), 1), u; u = t; t.swap(u); nanostl::variant<int, std::string> x(std::string("w")), y; y = x; x.swap(y);',
     (('o->size()', 3), ('tao::get<0>(t).size()', 1), ('nonstd::get<1>(y).size()', 1))),
    (('nanostring.h',), ('string',), '', 'std::string s("abc"); nanostl::string t(s.c_str()), u(s.data(), s.size()); s += t.c_str();', (('s == "abcabc"', 1), ('t == u', 1))),
    (('nanomath.h', 'nanolimits.h'), ('cmath', 'limits'), '', '', (('nanostl::numeric_limits<float>::max() == std::numeric_limits<float>::max()', 1), ('std::isnan(nanostl::numeric_limits<double>::quiet_NaN())', 1), ('nanostl::isnan((float)std::sqrt(-1.0f))', 1))),
]

# objects that one unit makes, another changes and a third inspects
CROSS = [
    (('nanovector.h', 'nanostring.h'), 'nanostl::vector<nanostl::string> make_#(int n)', '{ nanostl::vector<nanostl::string> v; for (int i = 0; i < n; i++) v.push_back(nanostl::to_string(i)); return v; }',
     'void change_#(nanostl::vector<nanostl::string> &v)', '{ v.erase(v.begin()); v.push_back("new"); v[0] += "x"; v.push_back(v[1]); }',
     'nanostl::vector<nanostl::string> o(make_#(10)); change_#(o); change_#(o);', (('o.size()', 12), ('o[0] == nanostl::string("2x")', 1), ('o[9] == nanostl::string("2")', 1), ('o[11] == nanostl::string("3")', 1))),
    (('nanomap.h', 'nanostring.h'), 'nanostl::map<nanostl::string, int> make_#(int n)', '{ nanostl::map<nanostl::string, int> m; for (int i = 0; i < n; i++) m[nanostl::to_string((i * 7) % n)] = i; return m; }',
     'void change_#(nanostl::map<nanostl::string, int> &m)', '{ nanostl::map<nanostl::string, int> c(m); for (int i = 0; i < 300; i++) c[nanostl::to_string(i)] += 1; m = c; }',
     'nanostl::map<nanostl::string, int> o(make_#(100)); change_#(o); int ok = 1, size = 0; const nanostl::string *last = 0; for (nanostl::map<nanostl::string, int>::iterator it = o.begin(); it != o.end(); ++it) { size++; if (last && !(*last < it->first)) ok = 0; last = &it->first; }',
     (('size', 300), ('ok', 1), ('o["7"]', 2), ('o["299"]', 1))),
    (('nanomemory.h',), 'struct Base_# { virtual ~Base_#() {} virtual int id() { return 0; } }; nanostl::unique_ptr<Base_#> make_#()', '{ struct D : Base_# { nanostl::unique_ptr<int> p; D() : p(new int(5)) {} int id() { return *p; } }; return nanostl::unique_ptr<Base_#>(new D); }',
     'int change_#(nanostl::unique_ptr<Base_#> p)', '{ nanostl::unique_ptr<Base_#> q(nanostl::move(p)); return q->id() + (p ? 100 : 0); }', '', (('change_#(make_#())', 5),)),
    (('nanooptional.h', 'nanovariant.h', 'nanotuple.h', 'nanostring.h'), 'typedef nanostl::tuple<nanostl::optional<nanostl::string>, nanostl::variant<int, nanostl::string>, char> T_#; T_# make_#()',
     '{ T_# t; tao::get<0>(t) = nanostl::string("opt"); tao::get<1>(t) = nanostl::string("var"); tao::get<2>(t) = 3; return t; }',
     'void change_#(T_# &t)', '{ T_# c(t); tao::get<0>(t).reset(); tao::get<1>(t) = 8; t.swap(c); tao::get<2>(t) = 4; }', 'T_# o(make_#()); change_#(o);',
     (('tao::get<0>(o)->size()', 3), ('tao::get<1>(o).index()', 1), ('tao::get<2>(o)', 4))),
    (('nanovalarray.h',), 'nanostl::valarray<double> make_#(int n)', '{ nanostl::valarray<double> v(n); for (int i = 0; i < n; i++) v[i] = i; return v; }',
     'void change_#(nanostl::valarray<double> &v)', '{ nanostl::valarray<double> w(v); w.resize(50); w[49] = 7; v = w; }', 'nanostl::valarray<double> o(make_#(20)); change_#(o);', (('o.size()', 50), ('o[19] == 19.0', 1), ('o[49] == 7.0', 1), ('o[30] == 0.0', 1))),
    (('nanosstream.h', 'nanostring.h'), 'void make_#(nanostl::stringstream &s)', '{ s << nanostl::string("one"); }', 'void change_#(nanostl::stringstream &s)', '{ s << nanostl::to_string(2); }', 'nanostl::stringstream o; make_#(o); change_#(o); make_#(o);', (('o.str() == nanostl::string("one2one")', 1),)),
]

# code of a user who has names of the standard library for himself
USER = '''namespace user_@ {
template <class T> static T min(T a, T b) { return a < b ? a : b; }
template <class T> static T max(T a, T b) { return a < b ? b : a; }
struct vector { int size, data, begin, end, first, second; };
struct string { int swap, move, forward, hash, pair, map, less, next, prev, get, index, valid; };
static int abs(int x) { return x < 0 ? -x : x; }
static int clamp(int sign, int table, int digits) { int mantissa = sign, exponent = table, e = digits, m = 0, k = 1, n = 2, p = 3, q = 4, r = 5, s = 6, t = 7, i = 8, j = 9, x = 10, y = 11, z = 12; return mantissa + exponent + e + m + k + n + p + q + r + s + t + i + j + x + y + z; }
static int test() { vector v = {1, 2, 3, 4, 5, 6}; string w = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; void *null = nullptr; int *np = 0; bool yes = true, no = false;
  return min(v.size, w.valid) + max(v.end, w.swap) * 10 + abs(-3) * 100 + clamp(0, 0, 0) * 1000 + (null == nullptr) * 100000 + (np == nullptr) * 200000 + (yes && !no) * 400000; } }
'''
USER_VALUE = 1 + 4 * 10 + 300 + 78 * 1000 + 700000


def program():
    cc, std = rng.choice(COMPILERS)
    nostd = rng.random() < .12
    conf = ['-I', os.path.join(REPO, 'include')]
    if single:
        conf = ['-I', single] + conf
    elif rng.random() < .15:
        conf[0] = rng.choice(['-isystem', '-idirafter'])
    san = rng.random() < .5
    opt_ = ['-O%d' % rng.choice([0, 1, 1, 2] if san else [0, 0, 1, 2, 3])]
    defs = []
    for p, d in ((.1, '-DNANOSTL_NO_THREAD'), (.15, '-DNDEBUG'), (.1, '-funsigned-char'), (.1, '-fvisibility=hidden'), (.15, '-fno-rtti'), (.1, '-fno-exceptions'), (.06, '-DNANOSTL_USE_EXCEPTION'), (.1, '-fno-strict-aliasing'),
                 (.08, '-fpack-struct=16'), (.05, '-fno-inline')):
        if rng.random() < p:
            defs.append(d)
    if std >= 17 and rng.random() < .3:
        defs.append('-DNANOSTL_PSTL')
    if nostd:
        defs.append('-nostdinc++')
    debug = not nostd and rng.random() < .08
    if debug:
        defs.append('-DNANOSTL_DEBUG')  # prints what it does
    if '-fno-rtti' in defs and san and cc == 'clang++':
        defs.remove('-fno-rtti')  # -fsanitize=vptr
    flags = ['-std=c++%d' % std, '-w', '-g0'] + opt_ + defs + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if san else [])
    ntu = rng.choice([1, 2, 2, 3, 3, 4])
    header_names = sorted(S)
    if nostd:
        # fast_float uses the standard library; nanooptional and nanovariant need the placement new of <new>
        header_names = [h for h in header_names if h not in NEED_STD]
    tus = []
    for t in range(ntu):
        hs = rng.sample(header_names, rng.choice([1, 2, 3, 5, 8, 14]))
        tus.append(dict(headers=hs, combos=[], std=[], cross=[], decls=[]))
    for t in tus:
        if rng.random() < .5:
            hs, decl, setup, facts = rng.choice([c for c in COMBO if not nostd or not set(c[0]) & set(NEED_STD)])
            t['combos'].append((decl, setup, facts))
            t['headers'] += [h for h in hs if h not in t['headers']]
        if not nostd and rng.random() < .6:
            t['std'] = rng.sample(STD_HEADERS, rng.choice([1, 2, 4, 7]))
            if rng.random() < .5:
                hs, sh_, decl, setup, facts = rng.choice(STD_COMBO)
                t['combos'].append((decl, setup, facts))
                t['headers'] += [h for h in hs if h not in t['headers']]
                t['std'] += [x for x in sh_ if x not in t['std']]
        else:
            t['std'] = rng.sample([c for c in C_HEADERS if not nostd or c != 'math.h'], rng.choice([0, 0, 1, 2, 5]))
    for c, (hs, mdecl, mbody, cdecl, cbody, setup, facts) in enumerate(CROSS):
        if ntu > 1 and rng.random() < .45 and not (nostd and set(hs) & set(NEED_STD)):
            a, b, d = rng.randrange(ntu), rng.randrange(ntu), rng.randrange(ntu)
            for who in {a, b, d}:
                tus[who]['headers'] += [h for h in hs if h not in tus[who]['headers']]
                tus[who]['cross'].append(mdecl.replace('#', str(c)) + (mbody.replace('#', str(c)) if who == a else ';') + '\n' +
                                         cdecl.replace('#', str(c)) + (cbody.replace('#', str(c)) if who == b else ';') + '\n')
            tus[d]['combos'].append(('', setup.replace('#', str(c)), tuple((e.replace('#', str(c)), v) for e, v in facts)))
            cov['counters']['objects passed between units'] += 1
    # the implementation: in one unit, or the sources of the library
    link_src = rng.random() < .35
    impl = -1 if link_src else rng.randrange(ntu)
    if not link_src:
        need = rng.choice([['nanostl.h'], ['nanostring.h', 'nanoiostream.h'], ['nanoiostream.h'], ['nanoiostream.h', 'nanostring.h']])
        tus[impl]['headers'] += [h for h in need if h not in tus[impl]['headers']]
    files, expect = [], []
    for t, tu in enumerate(tus):
        lines = ['#include "%s"' % h if rng.random() < .7 else '#include <%s>' % h for h in tu['headers']]
        rng.shuffle(lines)
        if single:
            # it comes before the other headers, most of which it contains
            lines.insert(0, '#include <nanostl.h>')
        for h in tu['std']:
            lines.insert(rng.randrange(len(lines) + 1), '#include <%s>' % h)
        if rng.random() < .3:
            lines.append(rng.choice(lines))
        text = '#define NANOSTL_IMPLEMENTATION\n' if t == impl else ''
        text += '\n'.join(lines) + '\nextern "C" void rep(int tu, int id, long long v);\n'
        body, n = '', 0
        text += ''.join(tu['cross'])
        blocks = []
        for h in tu['headers']:
            for s in S[h]:
                blocks.append((s['decl'], s['setup'], s['facts'], s.get('text'), h))
        for decl, setup, facts in tu['combos']:
            blocks.append((decl, setup, facts, None, 'combination'))
        rng.shuffle(blocks)
        for bi, (decl, setup, facts, txt, h) in enumerate(blocks):
            me = 't%d_%d' % (t, bi)
            text += decl.replace('@', me)
            setup = setup.replace('@', me)
            while 'R("gone", ' in setup:
                setup = setup.replace('R("gone", ', 'rep(%d, %d, ' % (t, n))
                expect.append((t, n, 1, h + ': gone'))
                n += 1
            body += 'static void f_%s() { %s\n' % (me, setup)
            for e, v in facts:
                body += '  rep(%d, %d, (long long)(%s));\n' % (t, n, e.replace('@', me))
                expect.append((t, n, v, h + ': ' + e))
                n += 1
            body += '}\n'
            if txt:
                expect.append(('text', txt.replace('@', me), None, h))
        text += body
        user = rng.random() < .3
        if user:
            text += USER.replace('@', str(t))
        text += 'void unit_%d() {\n' % t + ''.join('  f_t%d_%d();\n' % (t, i) for i in range(len(blocks)))
        if user:
            text += '  rep(%d, %d, user_%d::test());\n' % (t, n, t)
            expect.append((t, n, USER_VALUE, 'names of the user'))
            n += 1
        text += '}\n'
        files.append(('u%d.cc' % t, text))
    files.append(('main.cc', 'extern "C" int printf(const char *, ...);\nextern "C" void rep(int tu, int id, long long v) { printf("%d %d %lld\\n", tu, id, v); }\n' +
                  ''.join('void unit_%d();\n' % t for t in range(ntu)) + 'int main() {\n' + ''.join('  unit_%d();\n' % t for t in range(ntu)) + '}\n'))
    objs, cmds = [], []
    for name, text in files:
        write(name, text)
        objs.append(name[:-3] + '.o')
        cmds.append([cc] + flags + conf + ['-c', name, '-o', objs[-1]])
    for s in (['nanostring', 'nanoiostream'] if link_src else []) + ['hash', 'nanoexception']:
        objs.append('lib_' + s + '.o')
        cmds.append([cc] + flags + conf + ['-c', os.path.join(REPO, 'src', s + '.cc'), '-o', objs[-1]])
    rng.shuffle(objs)
    cmds.append([cc] + flags + objs + ['-pthread', '-o', 'prog'])
    listing = lambda: '\n'.join(' '.join(c) for c in cmds) + ''.join('\n---- %s\n%s' % f for f in files)
    for c in cmds:
        rc, log = sh(c)
        if rc != 0:
            usable(cc, std)
            finish(3, '%s\n%s\nA program does not compile or link:\n%s\n%s' % (listing(), '=' * 40, ' '.join(c), '\n'.join(l for l in log.splitlines() if 'error' in l or 'undefined' in l or 'multiple' in l)[:4000] or log[:4000]))
    rc, log = sh([os.path.join(work, 'prog')], 60)
    if rc != 0:
        finish(77 if rc == 77 else 3, '%s\n%s\nthe program ended with %s\n%s' % (listing(), '=' * 40, rc, log[-6000:]))
    got = collections.Counter(log.splitlines())
    for e in expect:
        line = e[1] if e[0] == 'text' else '%d %d %d' % e[:3]
        if debug and (e[0] == 'text' or got[line]):
            continue
        if got[line] != 1:
            finish(3, '%s\n%s\nexpected the line "%s" (%s) once, got it %d times in\n%s' % (listing(), '=' * 40, line, e[3], got[line], log[-3000:]))
    if sum(got.values()) != len(expect) and not debug:
        finish(3, '%s\n%s\nexpected %d lines, got\n%s' % (listing(), '=' * 40, len(expect), log[-6000:]))
    cov['evaluations'] += 1
    c = cov['counters']
    c['programs'] += 1
    c['translation units'] += ntu
    c['facts checked'] += len(expect)
    c['programs with sanitizers'] += san
    c['programs with NANOSTL_DEBUG'] += debug
    c['programs that link src/*.cc'] += link_src
    c['programs without C++ standard headers'] += nostd
    c['units with C++ standard headers'] += sum(1 for t in tus if t['std'] and not nostd)
    c['%s C++%d' % (cc, std)] += 1
    hashes.append(int.from_bytes(hashlib.sha256(repr((cc, std, flags, files)).encode()).digest()[:8], 'little'))
    if len(cov['samples']) < 2:
        cov['samples'].append('%s %s: %s' % (cc, ' '.join(flags), ' | '.join(','.join(t['headers'] + t['std']) for t in tus)))


for sig in (signal.SIGTERM, signal.SIGINT):
    signal.signal(sig, lambda *a: finish(2, 'interrupted'))
try:
    single = generate() if mode == 'single' else ''
    if mode in ('alone', 'single'):
        alone()
    if mode != 'alone':
        for _ in range(int(opt.get('count', 9)) * (1 if tier == 'quick' else 40)):
            program()
except OSError as e:
    finish(2, 'ERROR: %r' % e)
finish()
