"""What run.py builds and runs for each property."""
UB = '-fsanitize=undefined'
FLAGS = {
    # C++11 like the tests
    'asan': ['-std=c++11', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'asan17': ['-std=c++17', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'asan20': ['-std=c++20', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'casan': ['-std=c++11', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'casan17': ['-std=c++17', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'msan': ['-std=c++11', '-O1', '-fsanitize=memory', '-fsanitize-memory-track-origins=1', '-fno-omit-frame-pointer', '-fno-sanitize-recover=all'],
    'tsan': ['-std=c++11', '-O1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-pthread'],
    'ctsan': ['-std=c++11', '-O1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-pthread'],
    'plain': ['-std=c++11', '-O2', '-pthread'],
    'plain17': ['-std=c++17', '-O2', '-pthread'],
    'ubsan17': ['-std=c++17', '-O1', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-pthread'],
    'fiber': ['-std=c++11', '-O1'],
}
WRAPPED = ('pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init '
           'pthread_cond_destroy pthread_cond_signal pthread_cond_broadcast pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait '
           'sched_yield pthread_yield gettimeofday clock_gettime time nanosleep clock_nanosleep usleep pthread_self pthread_equal '
           'pthread_create pthread_join pthread_detach pthread_exit pthread_setname_np pthread_key_create pthread_key_delete '
           'pthread_setspecific pthread_getspecific').split()

CHECKS = {}


def check(prop, rule, variants, **kw):
    CHECKS[prop] = dict(rule=rule, variants=variants, **kw)


def h(name, src, cc='g++', flags='asan', **kw):
    return dict(name=name, src=src if isinstance(src, list) else [src], cc=cc, flags=flags, **kw)


def fiber(name, src, **kw):
    """A harness under the scheduler of fibers.cc."""
    return h(name, [src, 'fibers.cc'], flags='fiber', instrument=['@REPO@/src/nanothread.cc'], ld=['-Wl,--wrap=' + f for f in WRAPPED], **kw)


# the implementation compiled as C
AS_C = ['-DAS_C', '-include', 'extern_c.h']


def stress(mode, **kw):
    """stress.cc for one primitive: with ThreadSanitizer, and at full speed on the hardware."""
    src = ['stress.cc', '@REPO@/src/nanothread.cc']
    d = ['-DMODE=%d' % mode]
    return [h('stress tsan', src, flags='tsan', extra=d, shards=4), h('stress plain', src, flags='plain', extra=d + ['-DNDEBUG'], shards=4),
            h('stress as C', ['stress.cc', 'libs_thread.c'], flags='plain', extra=d + AS_C, shards=2)]


def dialects(name, src):
    """The same harness as C++11 with g++, and as C++17 with clang++ and C++20 with g++: the headers take other branches there."""
    return [h(name + ' asan+ubsan', src), h(name + ' C++17 clang++ asan+ubsan', src, cc='clang++', flags='casan17'), h(name + ' C++20 asan+ubsan', src, flags='asan20')]


def huge(prop, **kw):
    """Lengths beyond 2^32 (where there are 20 GB of memory to spare), at full speed."""
    return h('lengths beyond 2^32', ['huge.cc'] + kw.pop('src', []), flags='plain', extra=['-DNDEBUG', '-DMODE=%d' % prop], shards=1, memory=18, **kw)


SEQ_RULE = ('One evaluation is a random sequence of operations on three %s, each step compared with a model; distinct by the '
            'sequence of operations with their operands, non-trivial with at least 4 kinds of operations and 2 elements.')

check('P01', SEQ_RULE % 'vectors (nine element types)', [h('vector asan+ubsan', 'p01_vector.cc'), huge(1)])
check('P02', 'One evaluation is a random sequence of operations on containers (vector, valarray, map, string, nested) of elements '
      'that account for their own lifetime, after which constructions and destructions and the heap must balance, or a piece of work on one kind of object whose '
      'results must not depend on memory that was never written; distinct by the sequence, non-trivial with at least 4 kinds of operations and 2 elements.',
      [h('lifetime asan+ubsan', 'p02_lifetime.cc'), h('uninitialized reads msan', ['p02_msan.cc', '@REPO@/src/hash.cc'], cc='clang++', flags='msan', shards=4)])
check('P04', SEQ_RULE % 'strings', [h('string asan+ubsan', 'p04_string.cc'), h('other characters asan+ubsan', 'p04_wide.cc', shards=2), huge(4)])
check('P06', SEQ_RULE % 'maps (six key/value types)', [h('map asan+ubsan', 'p06_map.cc')])
check('P12', SEQ_RULE % 'valarrays (five element types; every sixth case instead is sin() of a valarray)', [h('valarray asan+ubsan', 'p12_valarray.cc'), huge(12)])
check('P03', 'One evaluation is a container grown by one element (or a few) at a time in one of several ways; distinct by way, start '
      'and length, non-trivial with at least 16 elements appended.', [h('growth asan+ubsan', 'p03_growth.cc')])
check('P05', 'One evaluation is a pair of strings compared in every way: all pairs of strings of up to 3 bytes (thorough: 4) over '
      '{00,01,a,7f,80,ff}, all pairs of bytes, and random pairs with a common prefix; random pairs are distinct by both contents and '
      'non-trivial when they differ after a prefix.', [h('compare asan+ubsan', 'p05_compare.cc'), h('other characters asan+ubsan', 'p04_wide.cc', extra=['-DORDER'], shards=2), huge(5)])
check('P07', 'One evaluation is a map filled in one order (10 hostile orders x 9 sizes) and probed; distinct by the keys in order, '
      'non-trivial with at least 100 keys.', [h('comparisons plain', 'p07_balance.cc', flags='plain')],
      assumptions=['The insertion order is chosen without looking at the priorities of the map.'])

check('P08', 'One evaluation is a value converted by to_string as int, unsigned, int64_t and uint64_t and compared with snprintf: all values within 300 of a '
      'power of two, of a digit times a power of ten or of a run of 7s, of both signs, and random ones of every magnitude (thorough: every int); random ones '
      'are distinct by value and non-trivial above 9.',
      [h('to_string integers asan+ubsan', 'p08_itoa.cc'), h('to_string every int', 'p08_itoa.cc', flags='plain', thorough_only=True)])
check('P09', 'One evaluation is a float or double converted by to_string, read back with strtof/strtod, and compared with std::to_chars: ends of every '
      'binade, one- and two-digit values with their neighbours, small integers and fractions, and random values of six kinds (thorough: every float); random ones '
      'are distinct by their bits and all non-trivial.',
      [h('to_string floats asan+ubsan', 'p09_ftoa.cc', flags='asan17'), h('to_string with 32-bit arithmetic', 'p09_ftoa.cc', flags='ubsan17', extra=['-DRYU_32_BIT_PLATFORM'], shards=2), h('to_string every float', 'p09_ftoa.cc', flags='plain17', thorough_only=True)])
check('P10', 'One evaluation is a string given to stof and stod and compared with strtof/strtod (or NaN): all strings of up to 4 (thorough: 5) characters '
      'over the characters of a number, values printed in every precision, halfway cases, long and mutated strings; random strings are distinct by content and '
      'non-trivial above 3 characters.', [h('stof/stod asan+ubsan', 'p10_atof.cc'), h('stof/stod with 32-bit arithmetic', 'p10_atof.cc', flags='ubsan17', extra=['-DRYU_32_BIT_PLATFORM'], shards=2), huge(10)],
      assumptions=["glibc's strtof and strtod are correctly rounded."])
check('P11', 'One evaluation is a character range given to fast_float::from_chars for float and double and compared with strtof/strtod and a reference '
      'grammar: all short strings over the characters of a number, values printed in every precision, halfway cases with up to 800 digits, long and mutated '
      'strings; random ones are distinct by content and non-trivial above 3 characters.', [h('from_chars asan+ubsan', 'p11_fastfloat.cc'), h('from_chars as on 32 bits', 'p11_fastfloat.cc', extra=['-DAS_ON_32_BIT'], shards=2),
      h('from_chars without 128-bit integers', 'p11_fastfloat.cc', extra=['-DNO_INT128'], shards=2), huge(11)],
      assumptions=["glibc's strtof and strtod are correctly rounded."])
check('P13', 'One evaluation is a float or double (or a pair) given to the classification functions, fabs, ceil, floor, copysign, fmin, fmax and clamp and '
      'compared with a reference on its bits: every float, the ends of every binade of double with each mantissa bit alone, all pairs of special '
      'floats, random doubles; random ones are distinct by bits.',
      [h('every float, plain', 'p13_exact.cc', flags='plain', extra=['-DNDEBUG']), h('strided asan+ubsan', 'p13_exact.cc')])
check('P14', 'One evaluation is a float given to the approximated functions, or a pair given to pow, and compared with the libm of double precision within the '
      'documented bound: every 19th float (thorough: every one), all floats within 60 of 3000 special ones, and random pairs; pairs are '
      'distinct by their bits and non-trivial when neither is zero.',
      [h('strided plain', 'p14_approx.cc', flags='plain', extra=['-DNDEBUG']), h('strided, fused operations', 'p14_approx.cc', flags='plain', extra=['-DNDEBUG', '-mfma', '-ffp-contract=fast']), h('strided asan+ubsan', 'p14_approx.cc')],
      assumptions=["glibc's libm in double precision is accurate to well below the bounds."])
check('P15', 'One evaluation is a fact (a trait of a type or pair of types, a member of numeric_limits, a ratio operation) computed by nanostl and by the standard '
      'library; distinct by construction.',
      [h('facts g++', 'p15_types.cc', flags='plain', extra=['-O0'], shards=1), h('facts with unsigned char', 'p15_types.cc', flags='plain17', extra=['-O0', '-funsigned-char'], shards=1), h('members g++', 'p15_members.cc', flags='plain', extra=['-O0'], shards=1), h('members C++17 clang++', 'p15_members.cc', cc='clang++', flags='casan17', extra=['-O0'], shards=1), h('facts clang++ asan+ubsan', 'p15_types.cc', cc='clang++', flags='casan', extra=['-O0'], shards=1),
       dict(name='random facts', script='p15_random.py', args=['--mode', 'facts'], timeout=400)])
check('P16', 'One evaluation is a byte string with a key and output size hashed by siphash and by a reference implementation, or a set of scalars hashed by '
      'hash<T>; distinct by the random state that generates it, non-trivial when the string is not empty.',
      [h('siphash asan+ubsan', ['p16_hash.cc', '@REPO@/src/hash.cc']), huge(16, src=['@REPO@/src/hash.cc'])])
check('P17', 'One evaluation is a random sequence of operations on unique_ptrs (single objects, arrays, stateful and reference deleters, derived to base), each '
      'step compared with a model of who owns what; distinct by the sequence, non-trivial with at least 4 kinds of operations.',
      dialects('unique_ptr', 'p17_unique.cc') + [h('conversions', 'p17_convert.cc', flags='asan17', extra=['-O0'], shards=1)])
MODEL_RULE = ('One evaluation is a random sequence of operations on %s, each step compared with a model and with the set of live values; distinct by the '
              'sequence of operations with their operands, non-trivial with at least 4 kinds of operations.')
check('P18', MODEL_RULE % 'four optionals (int, tracked, string, over-aligned; placed in guarded memory)', dialects('optional', 'p18_optional.cc') + [
    # whether std::optional would convert, and what comes out of it; -O0: these take long to compile
    h('conversions %d' % p, 'p18_convert.cc', cc=['g++', 'clang++'][p % 2], flags='asan17', extra=['-O0', '-DPART=%d' % p], shards=1) for p in range(3)])
check('P19', MODEL_RULE % 'three variants (four mixed, throwing, sixteen and one alternatives; placed in guarded memory)',
      dialects('variant', ['p19_variant.cc', '@REPO@/src/nanoexception.cc']) + [
          # its own parts assigned, up to five variants visited, arguments forwarded
          h('parts and visits', ['p19_parts.cc', '@REPO@/src/nanoexception.cc'], cc='clang++', flags='casan17')])
check('P20', MODEL_RULE % 'three tuples (placed in guarded memory); also all pairs of tuples of three numbers below 4', dialects('tuple', 'p20_tuple.cc') + [
    h('types', 'p20_types.cc', flags='asan17', extra=['-O0'], shards=1), h('types C++17 clang++', 'p20_types.cc', cc='clang++', flags='casan17', extra=['-O0'], shards=1)])
check('P21', 'One evaluation is a round of 2 to 5 threads that each work on objects of their own and read common constant ones, each result compared with that of the same work done by one '
      'thread; distinct by the work and its random state, non-trivial with at least 4 pieces of work.',
      [h('private objects tsan', ['p21_threads.cc', '@REPO@/src/hash.cc'], flags='tsan', shards=4),
       h('private objects clang++ tsan', ['p21_threads.cc', '@REPO@/src/hash.cc'], cc='clang++', flags='ctsan', shards=2),
       h('private objects plain', ['p21_threads.cc', '@REPO@/src/hash.cc'], flags='plain', extra=['-DSPEED=3'], shards=4)])
check('P22', 'One evaluation is a random sequence of values and C strings written to a stringstream or to cout (captured), compared with the text of to_string; '
      'distinct by the sequence.', [h('stream clang++ asan+ubsan', 'p22_stream.cc', cc='clang++', flags='casan'), h('stream g++ asan+ubsan', 'p22_stream.cc'), huge(22)])
check('P23', 'One evaluation is a call of an algorithm or utility (min, max, max_element, fill, distance, memcpy, pair, swap, move, forward) on random data, '
      'compared with the standard library; distinct by the data.',
      [h('algorithms asan+ubsan', 'p23_algorithm.cc'), h('algorithms C++17 execution policies', 'p23_algorithm.cc', flags='asan17', extra=['-DNANOSTL_PSTL'])])

FIBER_RULE = ('One evaluation is one schedule of threads that %s, run by a deterministic scheduler that may switch at every memory access, atomic operation and '
              'pthread call of the library (random and PCT schedules, with spurious wakeups and clock jumps injected), or a round of the same on real threads; distinct by the '
              'decisions of the scheduler (switches and where)%s.')
SC = ['Memory is sequentially consistent under the scheduler; orderings that are too weak are left to ThreadSanitizer and to the hardware (x86).']
check('P24', FIBER_RULE % ('lock sets of mutexes', ''), [fiber('mutex schedules', 'p24_mutex.cc')] + stress(24), assumptions=SC)
check('P25', FIBER_RULE % ('raise and wait for signals', ', non-trivial with both raises and waits in more than one thread'),
      [fiber('signal schedules', 'p25_signal.cc')] + stress(25), assumptions=SC)
check('P26', FIBER_RULE % ('operate on shared atomics', ' and the operations, non-trivial with several kinds of operations in several threads'),
      [fiber('atomics schedules', 'p26_atomic.cc')] + stress(26), assumptions=SC)
check('P27', FIBER_RULE % ('produce to, consume from and count a queue', ', non-trivial with several operations on both sides'),
      [fiber('queue schedules', 'p27_queue.cc'), fiber('queue schedules without asserts', 'p27_queue.cc', extra=['-DNDEBUG'])] + stress(27) +
      [h('2^31 values', ['stress.cc', '@REPO@/src/nanothread.cc'], flags='plain', extra=['-DMODE=27', '-DMARATHON', '-DNDEBUG'], shards=1, thorough_only=True)], assumptions=SC)
check('P28', 'One evaluation is a set of threads created, joined (or not) and destroyed by a random plan, either under the deterministic scheduler, where thread creation also fails, or for '
      'real; distinct by the decisions of the scheduler and the plan, non-trivial with at least two threads.',
      [fiber('lifecycle schedules', 'p28_fibers.cc')] +
      [h('lifecycle ' + n, ['p28_thread.cc', '@REPO@/src/nanothread.cc'], flags=f, shards=4, extra=x) for n, f, x in
       (('asan+ubsan', 'asan', ['-pthread']), ('tsan', 'tsan', []), ('plain', 'plain', ['-DPLAIN']))] +
      [h('lifecycle as C asan+ubsan', ['p28_thread.cc', 'libs_thread.c'], flags='asan', shards=2, extra=['-pthread'] + AS_C)])
check('P29', 'One evaluation is a header compiled alone (twice in one unit and once in another, linked) or a program of one to four translation units that includes a random choice of the '
      'headers in random order among those of the standard library, exercises every one of them and passes objects between the units, or a round in which everything on offer is used with types, deleters and iterators of the standard library; distinct by compiler, options and text.',
      [dict(name='headers alone', script='p29_headers.py', args=['--mode', 'alone'], timeout=400), dict(name='programs', script='p29_headers.py', timeout=400)] +
      dialects('standard types', ['p29_std.cc', '@REPO@/src/nanoexception.cc']) +
      [h('standard types C++17 with execution policies', ['p29_std.cc', '@REPO@/src/nanoexception.cc'], flags='asan17', extra=['-DNANOSTL_PSTL'], shards=2)],
      probes=[h('swap-%s' % n, ['p29_swap.cc', '@REPO@/src/nanoexception.cc'], flags='plain', extra=['-DCASE=%d' % i]) for i, n in enumerate(('array', 'optional', 'variant', 'tuple'), 1)])
check('P30', 'One evaluation is a set of threads that wait on timers in virtual time while their sleeps are interrupted; distinct by durations and decisions of the scheduler.',
      [fiber('timer schedules', 'p30_timer.cc')], assumptions=['nanosleep reports the time that is left when it is interrupted, as POSIX demands.'])

check('P32', 'One evaluation is a call that blocks for 0.3 to 0.8 s, on a primitive with a random history, whose thread must spend that time asleep; distinct by the call, its duration and the history.',
      [h('blocked threads', ['p32_idle.cc', '@REPO@/src/nanothread.cc'], flags='plain'), h('blocked threads clang++', ['p32_idle.cc', '@REPO@/src/nanothread.cc'], cc='clang++', flags='plain', extra=['-DNDEBUG'], shards=2)],
      assumptions=['getrusage(RUSAGE_THREAD) accounts for the processor time and the voluntary context switches of a thread.'])

check('P33', 'One evaluation is a sequence of integers computed at compile time by tao/seq, in a generated program, that is compared with what the generator computed; distinct by the expression, '
      'non-trivial with at least two elements.',
      [dict(name='sequences', script='p15_random.py', args=['--mode', 'sequences'], timeout=400)])


def single(name, src, n, flags='asan', **kw):
    """A harness of another property, one nth of it, with the generated single header."""
    return h('%s with the single header' % name, src, flags=flags, single=True, shards=1, args=['--nshards', str(n)], **kw)


check('P31', 'One evaluation is a case of the harness of another property (P01-P10, P12-P15, P22, P23), built with the generated single header in place of the headers it contains, '
      'or a random program of one to four translation units as in P29 that includes the single header and then other headers; distinct by construction as there.',
      [dict(name='programs', script='p29_headers.py', args=['--mode', 'single', '--count', '4'], timeout=400),
       single('vector', 'p01_vector.cc', 32), single('string', 'p04_string.cc', 32), single('compare', 'p05_compare.cc', 64, flags='asan20'), single('map', 'p06_map.cc', 64, cc='clang++', flags='casan17'),
       single('growth', 'p03_growth.cc', 64), single('comparisons', 'p07_balance.cc', 64, flags='plain'), single('lifetime', 'p02_lifetime.cc', 64), single('to_string integers', 'p08_itoa.cc', 64),
       single('to_string floats', 'p09_ftoa.cc', 64, flags='asan17'), single('stof/stod', 'p10_atof.cc', 64), single('valarray', 'p12_valarray.cc', 64), single('classification', 'p13_exact.cc', 64),
       single('approximations', 'p14_approx.cc', 64, flags='plain'), single('facts', 'p15_types.cc', 1, flags='plain17'), single('stream', 'p22_stream.cc', 64), single('algorithms', 'p23_algorithm.cc', 16, cc='clang++', flags='casan')])
