#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {}


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    T[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    T[id]['_m'] = (technique, note)


ASAN = 'AddressSanitizer and UndefinedBehaviorSanitizer'
prop('P01', 'A vector always equals the sequence its history of operations prescribes',
     'After any sequence of construction, copy, assignment, range assignment, push_back, pop_back, erase, resize, clear, swap and element writes, a vector has exactly the size, order and values that std::vector has after the same sequence; elements that resize adds are value-initialized, and the iterator that erase returns refers to the element after the erased one. operator[], at(), data() and iteration all show the same elements, a copy is independent of its original, and an argument may be an element of the vector itself.',
     ['histories', 'inputs'],
     'Every sequence of operations with any indices and values, any element type that can be copied or moved, including arguments that are elements of the vector itself.',
     "The tests try a handful of fixed sequences with int; they never insert a vector's own element, resize down and up again, or compare the contents with a model after every step.",
     ['include/nanovector.h'],
     [('size, capacity and element storage', 'include/nanovector.h: resize/reserve/insert/erase/push_back'), ('element construction', 'include/nanoallocator.h')],
     ['size(), capacity(), operator[], data(), begin()/end(), return values of insert/erase'],
     'model-based monitoring of random operation histories under ' + ASAN,
     'Every step of random histories over nine element types is compared with an independent model; assurance is by sampling, of sequences of up to about a hundred operations.')
prop('P02', 'Containers never leak, double-destroy or touch memory they do not own',
     'Whatever is done with vectors, valarrays, maps, strings and nestings of them, every element that was constructed is destroyed exactly once, no element is used before its construction or after its destruction, and all memory is released exactly once when the containers are gone. No operation on them reads or writes outside of its storage, depends on an uninitialized value or has undefined behaviour.',
     ['histories', 'inputs'],
     'Every sequence of operations on containers (copied, assigned, self-assigned, nested in each other) whose elements have non-trivial copy, move and destruction.',
     'The tests run without sanitizers, with elements for which a missed destructor or a stale byte is invisible.',
     ['include/nanovector.h', 'include/nanovalarray.h', 'include/nanomap.h', 'include/nanostring.h', 'include/nanoallocator.h'],
     [('copy/destroy/reallocate', 'include/nanovector.h, include/nanovalarray.h'), ('node ownership', 'include/nanomap.h: copy, clear, erase'), ('buffer ownership', 'include/nanostring.h, include/__string')],
     ['constructor/destructor accounting by address', 'heap balance', 'sanitizer reports'],
     'sanitizers (ASan, UBSan, MSan) plus a lifetime monitor on every element and a heap balance, over random histories',
     'Elements register their own address and check it on every use; a run ends with the heap exactly as it began. By sampling.')
prop('P03', 'Growing a container costs amortised constant time',
     'Appending n elements one by one (or in small steps) to a vector or valarray, or n characters to a string, performs O(n) element operations and O(log n) reallocations, and the capacity stays within a constant factor of the largest size. Contents survive every reallocation; capacity() is never below size() and never shrinks as the container grows, and nothing is reallocated while the new size fits the capacity.',
     ['inputs', 'histories'],
     'Every length and every way to append (one at a time, in blocks, mixed with pops), from any starting capacity.',
     'The tests append a few elements; a quadratic growth or a reallocation after reserve() is invisible at that size.',
     ['include/nanovector.h', 'include/nanostring.h', 'include/nanovalarray.h'],
     [('growth policy', 'include/nanovector.h: resize, recommended_size; include/nanovalarray.h'), ('string append', 'include/nanostring.h: operator+=')],
     ['allocation count', 'element copies/moves', 'data() across appends'],
     'runtime monitors on allocations, element moves and addresses while containers grow, under ' + ASAN,
     'Counts are compared with bounds generous to any geometric growth; lengths up to about a million.')
prop('P04', 'A string equals the bytes its operations prescribe and is terminated',
     'After any sequence of construction (default, from a C string, a range, a pointer and a count, another string), assignment, +, +=, erase, clear and element writes, a string has exactly the bytes that std::string has after the same sequence, with embedded NULs and the string itself as an argument included. c_str() is always followed by a NUL, and empty(), size(), length(), at() and [] agree with it. The same holds for basic_string of every other character type.',
     ['histories', 'inputs'],
     'Every sequence of string operations the library defines, any bytes and any lengths.',
     'The tests build a few short ASCII strings; they do not reach embedded NULs, self-append, reallocation boundaries or the terminator after each operation.',
     ['include/nanostring.h', 'include/__string', 'include/nanovector.h'],
     [('string storage over a vector with a terminator', 'include/nanostring.h: basic_string')],
     ['size(), c_str(), at(), []'],
     'model-based monitoring of random string histories under ' + ASAN,
     'Each step is compared with std::string; by sampling.')
prop('P05', 'String comparison is the lexicographic total order on unsigned bytes',
     'For all strings a and b, exactly one of a<b, a==b, a>b holds, and it is the one that comparing the bytes as unsigned characters and then the lengths gives. compare(), ==, != , < and > all agree with it, also for a C string on the right, and never depend on bytes beyond the end of either. Strings of wide characters (basic_string of wchar_t, char16_t, char32_t) are ordered in the same way by the values of their characters.',
     ['inputs'],
     'All pairs of strings, including embedded NULs, bytes above 127, prefixes of each other, and empty strings.',
     'The tests compare one or two pairs.',
     ['include/nanostring.h', 'include/__string'],
     [('compare and the comparison operators', 'include/nanostring.h'), ('char_traits compare', 'include/__string')],
     ['results of compare(), ==, !=, <, >'],
     'exhaustive small strings and random ones against memcmp, under ' + ASAN,
     'Exhaustive over all pairs of strings of up to three bytes of a hostile alphabet; sampled above.')
prop('P06', 'A map is the sorted associative array its history of operations prescribes',
     "After any sequence of insert, operator[], assignment through iterators, copy construction and assignment, a map holds exactly the key/value pairs that std::map holds after the same sequence; iteration visits each key once in increasing order of <, and find, upper_bound, empty and the results of insert tell what std::map's tell. A copy is independent of its original, and the address of an element does not change as others are inserted.",
     ['histories', 'inputs'],
     'Every sequence of operations, any key type that < orders, any value type, any insertion order.',
     'The test inserts a few ints; it never iterates after erasing, copies a map, or uses a custom order.',
     ['include/nanomap.h'],
     [('treap insert/rotate/copy', 'include/nanomap.h'), ('iterators', 'include/nanomap.h: iterator')],
     ['iteration, find, count, size, return values'],
     'model-based monitoring of random map histories under ' + ASAN,
     'Each step is compared with a std::map-like model; six key/value types; by sampling.')
prop('P07', 'Map operations take O(log n) comparisons for any insertion order',
     "For a map of n keys inserted in any order chosen independently of the library's internal randomness (sorted, reversed, interleaved, organ-pipe, in copies of maps), a lookup or an insertion calls the comparison of keys O(log n) times, and a full iteration O(n log n) times.",
     ['inputs', 'histories'],
     'Every insertion order, up to a hundred thousand keys.',
     'A map that degenerates to a list passes every test on a handful of keys.',
     ['include/nanomap.h'],
     [('treap priorities and rotations', 'include/nanomap.h')],
     ['comparator calls'],
     'a counting comparator monitors every operation while maps are filled in hostile orders',
     'The bound is a generous multiple of log2 n that a treap exceeds with negligible probability; the seed of the priorities is fixed, so the outcome is reproducible.')
prop('P08', 'to_string of an integer is its exact decimal representation',
     'For every value of int, unsigned, 64-bit signed and 64-bit unsigned integers, to_string gives the decimal digits that printf gives: a minus sign only for negative values, no leading zeros, no truncation.',
     ['inputs'],
     'All values of the four integer types.',
     'The tests convert a few values.',
     ['include/nanostring.h', 'src/nanostring.cc'],
     [('integer formatting', 'include/nanostring.h and the string implementation section')],
     ['text returned'],
     'differential monitoring against snprintf under ' + ASAN,
     'Thorough covers every 32-bit int and unsigned; 64-bit values are hit around all powers of 2 and 10 and at random.')
prop('P09', 'to_string of a float or double is the shortest text that reads back exactly',
     'For every finite float and double, the text of to_string read by a correctly rounding parser is the same value bit for bit (the sign of zero included), and it has as few significant digits as any such text and, among those, is the closest to the value; infinities and NaN are written as text that says so.',
     ['inputs'],
     'All floats and doubles.',
     'The tests convert a few values and do not read the text back.',
     ['include/__nanostrutil.h', 'include/ryu/d2s_full_table.h', 'include/nanostring.h'],
     [('shortest-digit generation', 'include/__nanostrutil.h (ryu), include/ryu/d2s_full_table.h'), ('to_string(float/double)', 'include/nanostring.h')],
     ['text returned'],
     'differential monitoring against strtof/strtod and std::to_chars under ' + ASAN,
     'Thorough covers every float; doubles are hit at the ends of every binade and at random.')
prop('P10', 'stof and stod are correctly rounded and reject malformed text',
     'For text that is a decimal number with up to 9 (float) or 17 (double) significant digits and an exponent of at most four digits, stof and stod return the nearest representable value. For text that is not a number they return NaN; whatever the text, they neither read outside of it nor have undefined behaviour.',
     ['inputs'],
     'Every string: numbers in any notation, malformed text, any length.',
     'The tests parse one or two strings.',
     ['include/__nanostrutil.h', 'include/ryu/d2s_full_table.h', 'include/nanostring.h'],
     [('decimal to binary', 'include/__nanostrutil.h: s2f_n/s2d_n'), ('stof/stod', 'include/nanostring.h')],
     ['value returned'],
     'differential monitoring against strtof/strtod, exhaustive short strings, under ' + ASAN,
     "Exhaustive over all strings of up to four characters of the number alphabet; sampled above. Trusts glibc's strtof/strtod.")
prop('P11', 'from_chars parses exactly the longest decimal prefix and rounds it correctly',
     'fast_float::from_chars consumes exactly the longest prefix of its range that is a decimal floating-point number in the allowed format, returns the nearest float or double (ties to even) however many digits there are, overflow to infinity and underflow to zero included, and points behind what it consumed; so it does in the code for targets of 32 bits and in that for compilers without 128-bit integers. '
     'On a range that does not begin with a number it reports an invalid argument, points to the start and leaves the value; it never reads outside of the range.',
     ['inputs'], 'Every character range, format flag and both types.', 'No test calls it at all.', ['include/fast_float/fast_float.h', 'include/fast_float/parse_number.h', 'include/fast_float/decimal_to_binary.h'],
     [('grammar', 'include/fast_float/ascii_number.h'), ('rounding: fast path, Eisel-Lemire, decimal fallback', 'include/fast_float/decimal_to_binary.h, simple_decimal_conversion.h')], ['value, error code and end pointer'],
     'differential monitoring against strtof/strtod and a reference grammar, ranges at the ends of guarded memory, under ' + ASAN, 'Exhaustive short strings; halfway cases of up to 800 digits sampled. Trusts glibc\'s strtof/strtod.')
prop('P12', 'A valarray always equals the sequence its history of operations prescribes',
     'After any sequence of construction, copy, assignment, range assignment, erase, resize, clear, swap and element writes, a valarray has exactly the size, order and values a sequence has after the same operations, and elements that resize adds are value-initialized. sin() of a valarray is the sine of each of its elements, in order.',
     ['histories', 'inputs'],
     'Every sequence of operations, any element type, any values.',
     'The test applies a couple of operations to one short valarray.',
     ['include/nanovalarray.h'],
     [('storage', 'include/nanovalarray.h'), ('sin', 'include/nanovalarray.h')],
     ['size(), operator[], data(), iteration'],
     'model-based monitoring of random histories under ' + ASAN,
     'By sampling, five element types.')
prop('P13', 'Floating-point classification and exact operations are exact for every value',
     'isnan, isinf, isfinite, isnormal, fabs, ceil, floor, copysign, fmin, fmax and clamp return what IEEE 754 and the C++ standard prescribe for every float (and double, where they take one): a NaN argument of fmin/fmax is ignored, infinities, subnormals and huge values are treated as what they are, and no call has undefined behaviour.',
     ['inputs'],
     'All floats and doubles (and pairs of them).',
     'The tests try a dozen values.',
     ['include/nanomath.h'],
     [('bit tests and integer conversions', 'include/nanomath.h')],
     ['values returned'],
     'exhaustive differential monitoring over every float, plus UBSan',
     'One-argument functions: all 2^32 floats on every run. Doubles and pairs: structured and random samples. The sign of a zero result is not claimed.')
prop('P14', 'The approximate math functions stay within their accuracy everywhere',
     'Over their whole domain (of normal numbers), and whether or not the compiler fuses multiplications and additions, the results of exp, sinh and cosh are within 300 units in the last place (for arguments that do not overflow; sinh within 2.5e-7 absolutely below 1; beyond, they saturate at the ends of the range), log within 1.5e-5 absolutely, log10 within 1e-5, tanh, erf and erfc within 5e-6, the sine and cosine of angles up to 8192 within 1e-6, tan within 4e-7 of the angle, cbrt within 16 units, sqrt within 0.2 %, erf(ierf(x)) within 3e-5 and pow within a relative error of 1.5e-5 per unit of the exponent (plus 4e-5 and 1.5e-7 per binary order of magnitude of the result). Special points are exact: log of zero is -infinity and of a negative number NaN, as is its square root; exp(0), cos(0), erfc(0) and anything to the power 0 are 1, pow(x,1) is x, tanh, erf, cbrt and ierf are exactly odd, cosh exactly even, and sine, cosine, tanh and erf never exceed 1 in magnitude.',
     ['inputs'],
     'All floats; for pow all pairs.',
     'The tests compare each function at a few dozen points of a narrow range.',
     ['include/nanomath.h'],
     [('polynomials, range reduction', 'include/nanomath.h')],
     ['values returned'],
     'differential monitoring of (a stride of) every float against double-precision libm, plus UBSan',
     "Bounds were measured over every float and then fixed a little above; thorough visits every float. Trusts glibc's double libm.")
prop('P15', 'numeric_limits, type traits and ratios tell the same as the standard library',
     'Every member of numeric_limits, every type trait and every compile-time ratio operation that the library defines has the value or type that the standard library\'s has, for every type it supports. So have the member types of the containers, strings, pairs, pointers, allocators and iterators (iterator_traits included) and what their members return; only the integers that count elements may be other ones.',
     ['inputs', 'programs'], 'All types: arithmetic, pointers, references, arrays, functions, classes with any mix of special members, enums, unions, cv-qualified; all ratios that do not overflow.',
     'The tests print some limits and check a few traits on a few types.', ['include/nanotype_traits.h', 'include/nanolimits.h', 'include/nanoratio.h'], [('traits', 'include/nanotype_traits.h'), ('limits', 'include/nanolimits.h'), ('ratio', 'include/nanoratio.h')],
     ['values and types'], 'differential monitoring of thousands of facts against the standard library with g++ and clang++', 'A fixed set of about a hundred types chosen to hit every distinction the traits make, and random ones. Not claimed: is_empty of final classes (unfinished), the nothrow construction traits of arrays and is_constructible of arrays from other things (compilers differ since C++20).')
prop('P16', 'Hashing is SipHash-2-4 and equal values hash equally',
     'siphash gives the SipHash-2-4 value (64 or 128 bits) of exactly the bytes and key given, for every length and alignment, and changes neither. hash<T> of a scalar is the same for equal values (0 and -0 included) and differs for different ones.',
     ['inputs'],
     'All byte strings, keys, alignments and output sizes; all scalar types.',
     'No test hashes anything.',
     ['src/hash.cc', 'include/__hashfunc.h', 'include/nanofunctional.h'],
     [('siphash', 'src/hash.cc'), ('hash<T>', 'include/nanofunctional.h, include/__hashfunc.h')],
     ['hash values'],
     'differential monitoring against a reference implementation, inputs at the ends of guarded memory, under ' + ASAN,
     'All lengths up to some hundreds at every alignment, longer ones at random.')
prop('P17', 'A unique_ptr owns its object exclusively and deletes it exactly once',
     'Through any sequence of construction, move construction and assignment, conversion, reset, release, swap and destruction of unique_ptrs, each owned object is deleted exactly once, by the deleter that travelled with it, at the moment the standard prescribes, and never after release(). '
     'get(), bool, *, ->, [] and the comparisons tell the pointer owned. A unique_ptr can be made, converted or assigned from what std::unique_ptr can, and from nothing else.',
     ['histories'], 'All sequences of operations, single objects and arrays, stateful and reference deleters, derived to base, self-move and reset to the same.', 'The test makes one pointer.', ['include/nanomemory.h'], [('ownership transfer', 'include/nanomemory.h: unique_ptr')],
     ['calls of the deleter (which, when, with what)', 'get() and the like'], 'model-based monitoring of ownership histories with recording deleters under ' + ASAN, 'By sampling.')
prop('P18', 'An optional holds a value exactly when its history says so',
     'After any sequence of construction, assignment, emplace, reset, swap, copy and move, an optional holds what std::optional holds after the same sequence, exceptions thrown by the element\'s operations included; value() of an empty one throws, value_or falls back, and the comparisons order empty before any value; equal optionals hash equally. It can be made, converted or assigned from what std::optional can, with the same result. '
     'The value is constructed and destroyed exactly once, in properly aligned storage inside of the optional.',
     ['histories', 'fault_sequences'], 'All sequences of operations on several optionals, any element type, a throw at any copy or move.', 'The test uses one optional of int.', ['include/nonstd/optional.hpp', 'include/nanooptional.h'],
     [('storage and engaged flag', 'include/nonstd/optional.hpp')], ['has_value/value, live values, exceptions'], 'model-based monitoring with injected exceptions under ' + ASAN, 'By sampling, in three dialects and two compilers.')
prop('P19', 'A variant always holds exactly one alternative, the one its history says',
     'After any sequence of construction, assignment, emplace, swap, copy and move, a variant holds the alternative and the value that std::variant holds after the same sequence, or is valueless after an exception only where the standard lets it be (a copy assignment that throws keeps the value, if moving cannot throw); assigning a part of the value it holds gives that part; get, get_if, holds_alternative, index and visit agree and tell the values themselves, not copies, emplace forwards its arguments, and the wrong get throws; equal variants hash equally. '
     'The held value is constructed and destroyed exactly once, in properly aligned storage inside of the variant.',
     ['histories', 'fault_sequences'], 'All sequences of operations on several variants, one to sixteen alternatives, a throw at any construction.', 'The test uses a few assignments.', ['include/nanovariant.h', 'src/nanoexception.cc'],
     [('storage, index and visitation', 'include/nanovariant.h')], ['index, get, visit, live values, exceptions'], 'model-based monitoring with injected exceptions under ' + ASAN, 'By sampling, in three dialects and two compilers.')
prop('P20', 'A tuple holds its elements in order and compares lexicographically',
     "Construction (converting included), copy, move, assignment, swap, get by index and by type, make_tuple, tie, forward_as_tuple and tuple_cat give for every element of a tuple the type, the value and the kind of reference that std::tuple's give, constructing and destroying each element exactly once, inside of the tuple, aligned and without overlap. The six comparisons are lexicographic, element by element.",
     ['histories', 'inputs'],
     'All element types (empty, reference, move-only, over-aligned) and sequences of operations.',
     'No test uses a tuple.',
     ['include/nanotuple.h', 'include/tao/tuple/tuple.hpp'],
     [('element storage and index mapping', 'include/tao/tuple/tuple.hpp')],
     ['values, references, live values'],
     'model-based monitoring of tuples against the elements under ' + ASAN,
     'By sampling; comparisons exhaustive over triples of small numbers. Three dialects, two compilers.')
prop('P22', 'Everything written to a stream comes out exactly once, in order',
     'The contents of a stringstream are the concatenation, in order, of the texts of everything written to it since it was cleared or replaced; text is taken byte by byte and numbers are written as to_string writes them. What is written to cout and flushed appears on the standard output exactly once and in order, whatever characters (percent signs included) it has.',
     ['histories', 'inputs'], 'All sequences of values written, cleared, replaced, copied out and flushed, any text and length.', 'No test writes to a stream.', ['include/nanosstream.h', 'include/nanoiostream.h', 'include/nanostreambuf.h'],
     [('string buffer', 'include/nanosstream.h'), ('flush', 'include/nanoiostream.h')], ['str()', 'bytes on the standard output'], 'model-based monitoring of streams and of the captured output under ' + ASAN, 'By sampling, two compilers.')
prop('P23', "The algorithms and utilities do what the standard's do, for any type and range",
     'min, max, max_element, fill, distance, memcpy, less, pair, make_pair, swap (of values, arrays, strings), move, move_if_noexcept and forward return or leave what the standard prescribes, with ties and empty ranges included (the first of equals), touch nothing outside of the range, and move instead of copying where the standard does. With an execution policy, the algorithms do the same as without.',
     ['inputs'],
     'All ranges, element types (move-only, throwing, comparable by < alone) and values.',
     'The tests call min, max and one algorithm on a few values.',
     ['include/nanoalgorithm.h', 'include/nanoutility.h', 'include/nanoiterator.h', 'include/nanocstring.h', 'src/nanoalgorithm.cc'],
     [('algorithms', 'include/nanoalgorithm.h'), ('pair, swap, move', 'include/nanoutility.h')],
     ['values returned, ranges after the call, copies made'],
     'differential monitoring against the standard library under ' + ASAN,
     'By sampling; also built as C++17 with execution policies.')
prop('P24', 'At most one thread holds a mutex, and a free one is always obtained',
     "Between a thread's locking of a mutex and its unlocking, no other thread holds the lock, and everything written before an unlock is visible after the next lock. A lock on a mutex that is unlocked eventually returns, also when several mutexes are used at once, and a mutex can be terminated, which releases what it uses, and initialized again; the thread that was the last to use it may do so at once, even if another one has not yet returned from its unlock.",
     ['schedules'],
     'All interleavings of any number of threads locking, trying and unlocking any number of mutexes.',
     'No test uses threads; a race needs a particular interleaving.',
     ['include/nanothread.h', 'src/nanothread.cc', 'src/libs_thread.h'],
     [('mutex functions', 'src/nanothread.cc / src/libs_thread.h: thread_mutex_*')],
     ['acquisitions and releases in order', 'data protected by the mutex'],
     'online exclusion monitor under a deterministic scheduler (random and PCT), plus ThreadSanitizer and stress on real threads',
     'Schedules are sampled; the scheduler is sequentially consistent, real threads are x86 with ThreadSanitizer.')
prop('P25', 'A signal raised is never lost, and a wait ends neither early nor too late',
     'A wait on a signal succeeds only if the signal was raised since it was last consumed: a raise that happens before or during a wait lets exactly one waiting thread (or else the next one to wait) through, several raises without a wait count as one, and none is lost. A wait with a timeout fails no earlier than its timeout and, when nothing raises, soon after it, and a wait without one never fails; spurious wakeups do not matter, and terminating it releases what it uses. A thread whose wait has returned may terminate the signal at once (if nobody else uses it), even if the raise that let it through has not yet returned.',
     ['schedules', 'fault_sequences'],
     'All interleavings of raising and waiting threads, spurious wakeups, all timeouts.',
     'No test uses threads.',
     ['src/libs_thread.h', 'src/nanothread.cc'],
     [('signal flag under mutex and condition variable', 'src/libs_thread.h: thread_signal_*')],
     ['history of raises and waits, virtual time'],
     'linearizability checker over recorded histories under a deterministic scheduler with injected spurious wakeups; TSan and stress on real threads',
     'Schedules are sampled; time is virtual under the scheduler.')
prop('P26', 'The atomic operations are atomic, sequentially consistent and exact',
     'Every concurrent history of load, store, increment, decrement, add, subtract, swap and compare-and-swap on atomic integers and pointers is linearizable with respect to a plain variable with wrap-around, each operation returning the value from before it. The operations are sequentially consistent among each other and order other memory: what a thread writes before an operation is visible to a thread that reads its result, and no execution shows the store-buffering outcome.',
     ['schedules', 'inputs'],
     'All interleavings of all operations on shared atomics, all values including the extremes.',
     'No test uses atomics.',
     ['src/libs_thread.h', 'src/nanothread.cc'],
     [('atomics', 'src/libs_thread.h: thread_atomic_int_*/thread_atomic_ptr_*')],
     ['history of operations and results', 'litmus outcomes'],
     'linearizability checker over recorded histories under a deterministic scheduler; TSan happens-before litmus and stress on real threads',
     'Schedules are sampled; the hardware is x86, weaker orders only through TSan.')
prop('P27', 'The queue delivers every value exactly once, in order, within its capacity',
     'With one producer and one consumer thread, the values consumed are exactly the initial values and those successfully produced, in that order, each once; the queue never holds more than its capacity, its count is one that the history allows, and what was written before a produce is visible after the consume. A produce (consume) with a timeout of zero fails exactly when the queue is full (empty), one with a longer timeout succeeds when room (a value) appears in time and otherwise gives up after it (soon, unless the other side is held up in the middle of an operation), one without a timeout never fails, and none of them gets stuck while there is room (a value). Terminating a queue releases what it uses.',
     ['schedules', 'inputs'],
     'All interleavings of the two threads, all capacities and timeouts, any number of values (index wrap-around included).',
     'No test uses the queue.',
     ['src/libs_thread.h', 'src/nanothread.cc'],
     [('ring indices and signals', 'src/libs_thread.h: thread_queue_*')],
     ['values produced and consumed in order, counts, virtual time'],
     'FIFO and exactly-once monitor over recorded histories under a deterministic scheduler; TSan and stress on real threads; thorough crosses 2^31 values',
     'Schedules are sampled.')
prop('P28', 'A thread runs exactly once, its result is joined, and what it used is released',
     'A created thread runs its function exactly once with the argument given, with the name and at least the stack size asked for; join returns its result (or what it exited with) after it has ended, together with everything it wrote, and destroying a thread, joined or not, waits for it and releases it exactly once. Creation that fails returns nothing and leaks nothing, live threads have different ids, and thread-local values start empty and are private to their thread. A thread-local slot that was created is not null, also the first one of the process; null says that there are no more.',
     ['schedules', 'fault_sequences'],
     'All interleavings of creating, running, joining and destroying threads, creation failing at any point, any stack size and name.',
     'No test creates a thread.',
     ['src/libs_thread.h', 'src/nanothread.cc'],
     [('thread functions', 'src/libs_thread.h: thread_create/join/detach/destroy, thread_tls_*')],
     ['runs, results, pthread calls, heap balance'],
     'lifecycle monitor and pthread misuse detector under a deterministic scheduler with injected creation failures; ASan and TSan on real threads',
     'Schedules and plans are sampled.')
prop('P21', 'Threads that use separate objects or read shared ones do not interfere',
     'When several threads each work on objects of their own (vectors, strings, maps, valarrays, smart pointers, optionals, variants, tuples, hashes, conversions between text and numbers, math, algorithms, string streams) and read objects that no thread changes, there is no data race and every result is what the same work gives when a single thread does it. No hidden state is shared: only an object that one thread changes while another uses it needs a lock.',
     ['schedules', 'histories'],
     'All interleavings of any number of threads that do any work on objects of their own and constant shared ones. Streams to the standard output are one shared object and excluded.',
     'No test uses two threads.',
     ['include/nanomap.h', 'include/nanovector.h', 'include/nanostring.h', 'include/__nanostrutil.h', 'include/nanomath.h', 'include/nanosstream.h', 'src/hash.cc'],
     [('priorities of map nodes', 'include/nanomap.h: pri_state'), ('static tables and buffers', 'include/__nanostrutil.h, include/nanomath.h')],
     ['data races reported by ThreadSanitizer', 'digest of each piece of work'],
     'ThreadSanitizer and differential monitoring (many threads against one) of random work in concurrent threads',
     'Happens-before violations on every executed path are seen whatever the interleaving; work and schedules are sampled.')
prop('P29', 'Headers work alone, in any order and program, next to the standard library',
     'Each documented header compiles when it is the only one included, any selection of them compiles in any order, before, after and between headers of the standard library, as C++11 to C++20 with g++ and clang++, with or without exceptions and RTTI, with NDEBUG or NANOSTL_NO_THREAD, and what it declares then works. A program may include them in any number of translation units and define NANOSTL_IMPLEMENTATION in one of them: it links without missing or doubly defined symbols, and objects pass between its units. Names of nanostl work with types of namespace std, also by argument-dependent lookup, and std names are not changed by including nanostl.',
     ['programs', 'configurations'],
     'All selections and orders of headers among those of the standard library, all dialects and options named, any number of units. The unfinished nanoany.h, nanoexpected.h, nanotypeinfo.h and single_include/nanostl.h, and internal headers (with __ in front, errno.h, typeinfo) as the first ones included, are left out.',
     'The tests are one program that includes the headers in one order with one compiler and dialect.',
     ['include/nanostl.h', 'include/nanocommon.h', 'include/nanoutility.h', 'include/nanostring.h', 'include/nanoiostream.h', 'src/nanostring.cc', 'src/nanoexception.cc'],
     [('include guards and includes', 'include/*.h'), ('NANOSTL_IMPLEMENTATION sections', 'include/nanostring.h, include/nanoiostream.h'), ('inline and static definitions', 'include/*.h')],
     ['result of compiling, linking and running random programs'],
     'generated programs, compiled by two compilers in random configurations, linked and run under sanitizers with self-checking units',
     'A few hundred random programs in the quick tier; sampled.')
prop('P30', 'A timer wait lasts as long as asked, whatever interrupts it',
     'Waiting on a timer returns when the requested time has passed, no earlier when the sleep is interrupted any number of times, and without adding the interrupted time again. Threads waiting on their own timers do not affect each other.',
     ['inputs', 'fault_sequences', 'schedules'], 'All durations and all patterns of interruption.', 'No test waits on a timer.', ['src/libs_thread.h', 'src/nanothread.cc'], [('timer wait', 'src/libs_thread.h: thread_timer_wait')],
     ['virtual time at return'], 'virtual-time monitor with injected EINTR and concurrent waits under a deterministic scheduler', 'Durations up to hours in virtual time; sampled.')

prop('P31', 'The generated single header can stand for the headers it contains',
     'scripts/generateSingleHeader.py, run as the README says, writes a single_include/nanostl.h that contains nanostl.h and what it includes. A program that includes it instead of those headers, in any number of translation units and before other headers of the library, compiles with the same compilers, dialects and options (C++11 to C++20, g++ and clang++, without C++ standard headers, with and without exceptions, RTTI, threads, execution policies), links, and behaves exactly as with the headers: nothing of them is lost, doubled or changed.',
     ['programs', 'configurations', 'inputs'], 'All programs that use what nanostl.h offers, all the options named.', 'No test generates or includes the single header.',
     ['scripts/generateSingleHeader.py', 'include/nanostl.h', 'README.md'], [('concatenation of headers, comments and guards removed', 'scripts/generateSingleHeader.py: parseFile'), ('include guards, conditional includes', 'include/*.h')],
     ['the result of compiling, linking and running programs with the generated header'],
     'the harnesses of P01-P10, P12-P15, P22, P23 built with the freshly generated header under sanitizers, and generated multi-unit programs with two compilers', 'A part of each harness in the quick tier; sampled.')
prop('P32', 'A thread that waits is asleep: it uses no processor time and does not poll',
     'While thread_mutex_lock, thread_signal_wait, thread_queue_produce or thread_queue_consume (with and without a timeout), thread_join, thread_destroy or thread_timer_wait wait, their thread is blocked in the system: it spends next to no processor time and is woken only when there is something to do, not again and again in order to look. That holds whatever happened to the mutex, signal, queue or timer before.',
     ['schedules', 'histories'], 'Every blocking call, every history of the object it waits for, any number of waiting threads, any duration.', 'A busy wait returns the same results as a blocking one; no test looks at what a wait costs.',
     ['src/libs_thread.h', 'src/nanothread.cc'], [('condition waits', 'src/libs_thread.h: thread_signal_wait'), ('queue waits', 'src/libs_thread.h: thread_queue_produce, thread_queue_consume'), ('sleep', 'src/libs_thread.h: thread_timer_wait')],
     ['processor time and voluntary context switches of the waiting thread during the call'],
     'runtime monitor on the processor time and the wakeups of real blocked threads', 'Real waits of under a second; limits are 20 ms + 10 % of processor time, and 40 + 50 wakeups per second.')

prop('P33', 'Sequences of integers computed at compile time are what they are at run time',
     'make_integer_sequence<T, N> and index_sequence_for give 0, 1, ..., N-1 for every N; sum, partial_sum, exclusive_scan, inclusive_scan, plus, minus, zip, select, map, at_index and is_all of sequences of integers (of int or wider) have the value, length and value type that the same operation on the listed values has.',
     ['inputs', 'programs'], 'Every length, every integral type from int on, all values whose sums stay within an int; every pair of types for the operations on two sequences.', 'The tests build tuples of two or three elements, which use the sequences 0, 1 and 2 only.',
     ['include/tao/seq', 'include/tao/tuple'], [('generation', 'include/tao/seq/make_integer_sequence.hpp'), ('sums', 'include/tao/seq/sum.hpp, partial_sum.hpp, exclusive_scan.hpp, inclusive_scan.hpp'), ('element wise', 'include/tao/seq/zip.hpp, plus.hpp, minus.hpp, map.hpp, select.hpp, at_index.hpp')],
     ['values and types of sequences'], 'differential monitoring of generated programs against values computed by their generator, with g++ and clang++ from C++11 to C++20', 'Lengths up to 2500, some up to 20000. char and short are not claimed (partial_sum does not compile for them).')

NA = []
if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for k in sorted(T):
            d = {a: b for a, b in T[k].items() if a != '_m'}
            assert len(d['title']) <= 80, (k, len(d['title']))
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3 run.py --setup',
             checks=[dict(property=k, quick_cmd='python3 run.py ' + k, thorough_cmd='python3 run.py %s --tier thorough' % k, evidence_file='evidence/%s.json' % k,
                          technique=T[k]['_m'][0], level='exploration', level_note=T[k]['_m'][1]) for k in sorted(T)],
             not_applicable=NA, notes='properties.jsonl and this file are written by properties.py; DESIGN.md says how each property is decided.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
