#!/usr/bin/env python3
"""mutate.py FILE --checks P01,P02 [--max N] [--seed S] [--jobs J] [--lines A-B]
Changes one place of FILE (relative to the repository) at a time in scratch copies, drops mutants that do not compile or compile to the same code, and runs the
checks on the rest. Prints the mutants that survive all of them."""
import argparse, concurrent.futures as cf, os, queue, random, re, shutil, subprocess, sys, threading
ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('--checks'); ap.add_argument('--max', type=int, default=60); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--jobs', type=int, default=4); ap.add_argument('--lines'); ap.add_argument('--verif', default='/verif'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--dir', default='/tmp/mut/w')
ap.add_argument('--std', default='')
a = ap.parse_args()
sys.path.insert(0, a.verif)
import checks as C
CH = a.checks.split(',')
OPS = [(r'(?<![<>=!\-+*/&|^%<])<=(?!=)', ['<']), (r'(?<![<>=!\-])>=(?!=)', ['>']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r'==', ['!=']), (r'!=', ['==']), (r'&&(?! *\.\.\.)(?=[ \n(!])(?<= &&)', ['||']), (r'\|\|', ['&&']),
       (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\+\+', ['--']), (r'(?<!-)--(?!-)', ['++']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']), (r'<<(?!=)', ['>>']), (r'>>(?![=>])(?= )', ['<<']), (r'\+=', ['-=']), (r'-=', ['+=']),
       (r' & ', [' | ']), (r' \| ', [' & ']), (r' \^ ', [' & ']), (r'\b(\d+)([uUlL]*)\b(?![.xX\'])(?<![.])', 'num'), (r'0x[0-9a-fA-F]+', 'hex'), (r'\b\d+\.\d*f?', 'flt'), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'!(?=[A-Za-z_(])', ['']), (r'^\s+[^#/\n]*;\s*$', 'del'), (r'\bif \((?!.*constexpr)', ['if (!']), (r'\bmemory_order_\w+|__ATOMIC_\w+', ['__ATOMIC_RELAXED']), (r'\bconst\b ', ['']), (r'~(?=[A-Za-z(])', [''])]
src = open(os.path.join(a.repo, a.file)).read()
lines = src.split('\n')
lo, hi = (map(int, a.lines.split('-')) if a.lines else (1, len(lines)))
M = []
incomment = False
for n, l in enumerate(lines):
    if '/*' in l and '*/' not in l: incomment = True
    if incomment:
        if '*/' in l: incomment = False
        continue
    if not (lo <= n + 1 <= hi) or l.lstrip().startswith(('//', '#', '*', 'template', '@')): continue
    code = l.split('//')[0]
    for rx, reps in OPS:
        for m in re.finditer(rx, code):
            if reps == 'num': r = [str(int(m.group(1), 8 if m.group(1)[0] == '0' and len(m.group(1)) > 1 and '8' not in m.group(1) and '9' not in m.group(1) else 10) + d) + m.group(2) for d in (1, -1)] if len(m.group(1)) < 19 else []
            elif reps == 'hex': r = [hex(int(m.group(), 16) ^ (1 << random.Random(n).randrange(max(1, 4 * (len(m.group()) - 2)))))]
            elif reps == 'flt':
                r = [m.group().replace(m.group().rstrip('f'), repr(float(m.group().rstrip('f')) * 1.01 + 1e-9))]
            elif reps == 'del':
                if re.match(r'\s*(return|typedef|using|static|friend|namespace|extern|public|else|class|struct|template|case|int|size_t|const|unsigned|char|double|float|bool|void|auto|T|value_type|size_type|u?int\w+_t)\b', code): continue
                r = ['']
            else: r = reps
            for x in r: M.append((n, code[:m.start()] + (m.expand(x) if False else x) + code[m.end():] + l[len(code):]))
M = sorted(set(M))
total = len(M)
random.Random(a.seed).shuffle(M)
M = M[:a.max]
M.sort()
q = queue.Queue()
for k in range(a.jobs):
    d = '%s%d' % (a.dir, k)
    if not os.path.exists(d + '/repo'):
        os.makedirs(d, exist_ok=True)
        shutil.copytree(a.repo, d + '/repo', ignore=shutil.ignore_patterns('.git', 'build*'))
    subprocess.run(['cp', os.path.join(a.repo, a.file), os.path.join(d, 'repo', a.file)])
    shutil.rmtree(d + '/verif', ignore_errors=True)
    shutil.copytree(a.verif, d + '/verif', ignore=shutil.ignore_patterns('.git', 'build', 'evidence', 'replay'))
    open(d + '/verif/checks.py', 'a').write("\nfor _c in CHECKS.values(): _c['variants'] = [v for v in _c['variants'] if 'memory' not in v]\n")
    q.put((k, d))
def objs(d, tag):
    """Object code of the harnesses without sanitizers, to tell mutants that change nothing."""
    res = []
    for p in CH:
        for v in C.CHECKS[p]['variants']:
            if 'script' in v or v.get('thorough_only') or 'memory' in v: continue
            std = [f for f in C.FLAGS[v['flags']] if f.startswith('-std')]
            s = [x for x in v['src'] + v.get('instrument', []) if x not in ('fibers.cc',)]
            for i, x in enumerate(s):
                key = (v['cc'], tuple(std), x, tuple(v.get('extra', [])))
                if key in seen.setdefault(tag, {}): continue
                path = x.replace('@REPO@', d + '/repo') if x.startswith('@REPO@') else d + '/verif/harness/' + x
                o = d + '/o.o'
                r = subprocess.run([v['cc'], '-w', '-g0', '-O1', '-c'] + std + ['-idirafter', d + '/repo/include', '-I', d + '/verif/harness', '-I', d + '/repo/src'] + v.get('extra', []) + ['-pthread', path, '-o', o], capture_output=True, cwd=d)
                if r.returncode: return None
                seen[tag][key] = subprocess.run(['objdump', '-d', '-s', '-j.text', '-j.rodata', '-j.data', o], capture_output=True).stdout if False else open(o, 'rb').read().replace(d.encode(), b'')
    return seen[tag]
seen = {}
base = {}
for k, d in list(q.queue): base[k] = objs(d, 'base%d' % k)
assert base[0] is not None
stat = dict(nocompile=0, same=0, killed={}, survived=0, odd=0)
lock = threading.Lock()
def one(i):
    n, new = M[i]
    k, d = q.get()
    try:
        L = list(lines); L[n] = new
        open(os.path.join(d, 'repo', a.file), 'w').write('\n'.join(L))
        tag = 'm%d' % i
        o = objs(d, tag); seen.pop(tag, None)
        if o is None: stat['nocompile'] += 1; return
        if o == base[k]: stat['same'] += 1; return
        rcs = []
        for p in CH:
            try: r = subprocess.run([sys.executable, 'run.py', p], cwd=d + '/verif', env=dict(os.environ, VERIF_REPO=d + '/repo'), capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired: stat['odd'] += 1; print('TIMEOUT', n + 1, new, flush=True); return
            if r.returncode == 1: stat['killed'][p] = stat['killed'].get(p, 0) + 1; return
            if r.returncode: stat['odd'] += 1; print('ODD', p, r.returncode, n + 1, new, r.stdout[-300:], flush=True); return
        stat['survived'] += 1
        with lock: print('SURVIVED %s:%d\n  - %s\n  + %s' % (a.file, n + 1, lines[n].strip(), new.strip()), flush=True)
    finally:
        q.put((k, d))
with cf.ThreadPoolExecutor(a.jobs) as ex: list(ex.map(one, range(len(M))))
print(a.file, 'of', total, 'ran', len(M), stat, flush=True)
