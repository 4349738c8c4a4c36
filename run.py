#!/usr/bin/env python3
"""usage: run.py <property id> [--tier quick|thorough] [--seed N]
       run.py --setup

Builds the harnesses of one property from /repo's working tree with sanitizers, runs them in parallel shards, and turns
what the monitors say into an exit status, a VIOLATION line and an evidence file. See DESIGN.md."""
import array, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS, FLAGS

NCPU = os.cpu_count() or 4
ENV = dict(os.environ)
COMMON_SAN = 'exitcode=77:abort_on_error=0:handle_abort=1:symbolize=1'
ENV['ASAN_OPTIONS'] = COMMON_SAN + ':detect_leaks=0:detect_stack_use_after_return=1:max_malloc_fill_size=1048576:malloc_fill_byte=165:free_fill_byte=90:max_free_fill_size=65536:strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=1'
ENV['UBSAN_OPTIONS'] = 'exitcode=77:halt_on_error=1:print_stacktrace=1'
ENV['TSAN_OPTIONS'] = 'exitcode=77:halt_on_error=1:second_deadlock_stack=1:history_size=4'
ENV['MSAN_OPTIONS'] = 'exitcode=77:halt_on_error=1'
for v in ('CPLUS_INCLUDE_PATH', 'CPATH', 'CXXFLAGS', 'LDFLAGS', 'CPPFLAGS', 'LD_PRELOAD'):
    ENV.pop(v, None)


RSS_LIMIT = 3 << 30  # a harness stays below 1 GB; one that runs away takes the memory of all the others


def rss(pid):
    try:
        with open('/proc/%d/statm' % pid) as f:
            return int(f.read().split()[1]) * os.sysconf('SC_PAGE_SIZE')
    except (OSError, IndexError):
        return 0


STOP = threading.Event()  # there is a violation: what still runs is not needed


def sh(cmd, timeout, most=RSS_LIMIT, **kw):
    """Runs cmd in its own process group, and ends the whole group when the time is up or it takes too much memory."""
    if STOP.is_set():
        return 'stopped', ''
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, start_new_session=True, **kw)
    end = time.monotonic() + timeout
    while True:
        try:
            out, _ = p.communicate(timeout=min(1, max(0.01, end - time.monotonic())))
            return p.returncode, out.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            what = 'timeout' if time.monotonic() >= end else 'memory' if rss(p.pid) > most else 'stopped' if STOP.is_set() else None
            if not what:
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, _ = p.communicate()
            return what, out.decode('utf-8', 'replace')


GENERATE = 'mkdir -p %(d)s/single_include && cp -r %(repo)s/include %(repo)s/scripts %(d)s && cd %(d)s && python3 scripts/generateSingleHeader.py > generate.log 2>&1 || { cat generate.log; exit 1; }'


def compile_cmds(v, out):
    """The commands that build the harness, the last of which links it. What v['instrument'] lists is compiled apart with the
    instrumentation of ThreadSanitizer, for harness/fibers.cc to take the place of its runtime."""
    path = lambda s: s.replace('@REPO@', REPO) if s.startswith('@REPO@') else os.path.join(HERE, 'harness', s)
    base = [v['cc'], '-w', '-g1'] + FLAGS[v['flags']] + ['-idirafter', REPO + '/include', '-I', HERE + '/harness', '-I', REPO + '/src']
    base += v.get('extra', [])
    cmds, objs = [], []
    if v.get('single'):
        # with the single header that the script of the repository generates, in place of the headers it contains
        d = out + '.single'
        cmds.append(['sh', '-c', GENERATE % {'d': d, 'repo': REPO}])
        base += ['-include', d + '/single_include/nanostl.h', '-DNANOSTL_IMPLEMENTATION=']
    for i, s in enumerate(v.get('instrument', [])):
        objs.append('%s.%d.o' % (out, i))
        cmds.append(base + ['-fsanitize=thread', '-c', path(s), '-o', objs[-1]])
    for i, s in enumerate(v['src']):
        if s.endswith('.c'):  # as C
            objs.append('%s.c%d.o' % (out, i))
            cmds.append([{'g++': 'gcc', 'clang++': 'clang'}[v['cc']]] + ['-std=gnu11' if f.startswith('-std=') else f for f in base[1:]] + ['-c', path(s), '-o', objs[-1]])
    return cmds + [base + [path(s) for s in v['src'] if not s.endswith('.c')] + objs + ['-o', out] + v.get('ld', [])]


def compile_all(v, out):
    if 'script' in v:
        return 0, ''
    for cmd in compile_cmds(v, out):
        rc, log = sh(cmd, 400)
        if rc != 0:
            break
    return rc, log


def probe(v, out):
    rc, log = compile_all(v, out)
    return (rc, log) if rc != 0 else sh([out], 60)


SANITY = '#include <new>\n#include <vector>\n#include <map>\n#include <string>\n#include <thread>\nint main(){std::vector<int> v(3); std::map<int,int> m; m[v[0]]=1; return m[0]-1;}\n'


def toolchain_works(v, tmp):
    src = os.path.join(tmp, 'sanity.cc')
    open(src, 'w').write(SANITY)
    out = os.path.join(tmp, 'sanity')
    rc, _ = sh([v['cc'], '-w', '-g1'] + FLAGS[v['flags']] + [src, '-o', out, '-pthread'], 120)
    if rc != 0:
        return False
    rc, _ = sh([out], 60)
    return rc == 0


def violation(prop, what, cmd, log):
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.txt')
    with open(path, 'w') as f:
        f.write('property: %s\nwhat: %s\ncommand: %s\nenvironment: %s\n\n%s\n' % (
            prop, what, cmd, ' '.join('%s=%s' % (k, ENV[k]) for k in ENV if k.endswith('SAN_OPTIONS')), log))
    print('\n'.join(log.strip().splitlines()[-25:]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return path


def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        for cc in ('g++', 'clang++'):
            if not shutil.which(cc):
                print('no ' + cc)
                return 2
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        return 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    chk = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(HERE, 'build'))
    try:
        return check(prop, chk, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, chk, tier, seed, tmp, t0):
    variants = [v for v in chk['variants'] if tier == 'thorough' or not v.get('thorough_only')]
    pool = concurrent.futures.ThreadPoolExecutor(NCPU + NCPU // 2)  # some threads only wait
    comp = {}
    for i, v in enumerate(variants):
        comp[pool.submit(compile_all, v, os.path.join(tmp, 'h%d' % i))] = (i, v)
    # the cases of known findings, apart from the rest so that they hide nothing
    probes = {pool.submit(probe, v, os.path.join(tmp, 'p%d' % i)): v for i, v in enumerate(chk.get('probes', []))}
    runs = {}
    results = []
    bad = None
    pending = set(comp) | set(probes)
    # each shard starts as soon as its harness is built
    late, again = [], set()
    while (pending or late) and not bad:
        if not pending:
            i, v, s, out, cmd, limit, most = runs[late.pop(0)]
            g = pool.submit(sh, cmd, limit, most, cwd=tmp)
            runs[g] = (i, v, s, out, cmd, limit, most)
            again.add(g)
            pending = {g}
        done, pending = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
        for f in done:
            rc, log = f.result()
            if f in probes:
                v = probes[f]
                if rc != 0:
                    b = ('probe %s' % v['name'], ' && '.join(' '.join(c) for c in compile_cmds(v, '/tmp/h')), 'probe %s\n%s' % (v['name'], log))
                    if not toolchain_works(v, tmp):
                        print('ERROR: the toolchain does not work')
                        return 2
                    if not known(prop, b):
                        bad = b
                        break
            elif f in comp:
                i, v = comp[f]
                if rc != 0:
                    cmd = ' && '.join(' '.join(c) for c in compile_cmds(v, '/tmp/h'))
                    if not toolchain_works(v, tmp):
                        print(log[-3000:])
                        print('ERROR: the toolchain does not work: ' + cmd)
                        return 2
                    bad = ('harness %s does not compile or link against the library' % v['name'], cmd, log[:20000])
                    break
                n = v.get('shards', NCPU)
                for s in range(n):
                    out = os.path.join(tmp, 'cov%d_%d' % (i, s))
                    exe = [sys.executable, os.path.join(HERE, 'harness', v['script'])] if 'script' in v else [os.path.join(tmp, 'h%d' % i)]
                    cmd = exe + ['--seed', str(seed), '--shard', str(s), '--nshards', str(n), '--tier', tier, '--out', out] + v.get('args', [])
                    limit = v.get('timeout', 150) if tier == 'quick' else v.get('thorough_timeout', 3000)
                    most = v.get('memory', 3) << 30
                    g = pool.submit(sh, cmd, limit, most, cwd=tmp)
                    runs[g] = (i, v, s, out, cmd, limit, most)
                    pending.add(g)
            else:
                i, v, s, out, cmd, limit, most = runs[f]
                if rc == 'timeout' and f not in again:
                    # an overloaded machine is not a hang: once more, when the others have ended
                    late.append(f)
                    continue
                if rc == -signal.SIGKILL and 'memory' in v:
                    # ended for want of memory by the system, not by sh()
                    results.append((v, dict(evaluations=0, enumerated=0, counters={'ended for want of memory': 1}, maxima={}, samples=[]), out + '.hashes'))
                    continue
                if rc == 0:
                    if not os.path.exists(out):
                        bad = ('harness %s shard %d ended early' % (v['name'], s), ' '.join(cmd), log)
                        break
                    results.append((v, json.load(open(out)), out + '.hashes'))
                    continue
                if rc == 2:
                    STOP.set()
                    print(log[-3000:])
                    print('ERROR: harness %s can not run here' % v['name'])
                    pool.shutdown(wait=False, cancel_futures=True)
                    return 2
                what = {'timeout': 'did not finish in %d s' % limit, 'memory': 'took more than %d GB of memory' % (most >> 30), 3: 'oracle mismatch', 77: 'sanitizer report'}.get(rc, 'ended with status %s' % rc)
                bad = ('harness %s shard %d: %s' % (v['name'], s, what), ' '.join(cmd), log[-20000:])
                break
    if bad:
        STOP.set()
        pool.shutdown(wait=False, cancel_futures=True)
    counters, maxima, samples, evals, enum = {}, {}, [], 0, 0
    distinct = set()
    per = {}
    for v, r, hf in results:
        evals += r['evaluations']
        enum += r['enumerated']
        p = per.setdefault(v['name'], {'processes': 0, 'evaluations': 0})
        p['processes'] += 1
        p['evaluations'] += r['evaluations']
        for k, n in r['counters'].items():
            counters[k] = counters.get(k, 0) + n
        for k, n in r['maxima'].items():
            maxima[k] = max(maxima.get(k, 0), n)
        if len(samples) < 8:
            samples += r['samples'][:2]
        h = array.array('Q')
        with open(hf, 'rb') as f:
            h.frombytes(f.read())
        if len(distinct) < 6000000:
            distinct.update(h)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct) + enum, 'rule': chk['rule'],
                       'samples': samples[:8], 'observed': counters, 'per_harness': per},
          'assumptions': chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if bad else 0}
    if maxima:
        ev['coverage']['maxima'] = maxima
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if bad:
        violation(prop, *bad)
        return 1
    print('%s: held on %d evaluations (%d distinct non-trivial), %.1f s' % (prop, evals, len(distinct) + enum, time.time() - t0))
    return 0


def known(prop, bad):
    """known_findings.txt: 'KNOWN property=<id> match=<regular expression on the report of a probe> <what>' per line."""
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'KNOWN property=(\S+) match=(\S+) (.*)', line)
            if m and m.group(1) == prop and re.search(m.group(2), bad[2], re.S):
                print('KNOWN-FINDING: property=%s %s' % (prop, m.group(3)))
                return True
    return False


if __name__ == '__main__':
    sys.exit(main())
