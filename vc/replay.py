"""Bounded cross-check of the real code: compiles a randomised harness against
/repo's current tree and runs it.  Never counted as proved; it supplies the
concrete failing inputs for violations.  Runs as a separate process:
    replay.py PROP TIER SEED OUT.json"""
import sys, os, json, subprocess, tempfile, shutil, re, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); H = os.path.join(ROOT, 'harness')
REPO = os.environ.get('VP_REPO', '/repo')
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=float-cast-overflow,float-divide-by-zero']
SPECS = {}   # prop -> list of (label, source, defines, extra flags, quick cases, thorough cases)
for n in (1, 4, 5, 6, 7, 8, 9, 13, 14, 15, 23, 24, 25, 26, 27, 28):
    SPECS['P%02d' % n] = [('trees', 'p.cpp', ['-DPROP=%d' % n], [], 20000, 400000)]
SPECS['P02'] = [('trees', 'p.cpp', ['-DPROP=2'], ASAN, 8000, 150000)]
SPECS['P10'] = [('trees', 'p.cpp', ['-DPROP=10'], ASAN, 15000, 300000)]
SPECS['P11'] = [('address sanitizer', 'p.cpp', ['-DPROP=11'], ASAN, 1500, 40000), ('trees', 'p.cpp', ['-DPROP=11'], [], 8000, 150000)]
SPECS['P12'] = [('counted allocations', 'p.cpp', ['-DPROP=12', '-DCOUNT_ALLOCS'], [], 12000, 200000), ('address sanitizer', 'p.cpp', ['-DPROP=12'], ASAN, 3000, 60000)]
for p in ('P09', 'P15', 'P04', 'P05'): SPECS[p].append(('address sanitizer', 'p.cpp', ['-DPROP=%d' % int(p[1:])], ASAN, 2500, 50000))
import replay_extra; replay_extra.add(SPECS)
import replay_ops; replay_ops.add(SPECS)
RULE = {'': 'random expression trees (depth up to 5, all node kinds the property ranges over, shared sub-trees, special constants) compared with an independent mirror-tree oracle; a case is non-trivial when its text is new'}
CT = 'type applications aimed at every rule of the current tree, systematic small operands and random expressions; the resulting type is printed and compared exactly (rationals) with an independent reference; applications the library rejects at compile time are dropped'
RULE['P03'] = 'every operand kind pair and operator (and every function of every operand kind), one generated C++ line each, with random operands; the tree, or for compile-time operands its value, is compared with the mirror tree of the operation written'
RULE['P22'] = 'generated nestings of compile-time constants, variables and operators; conversions, assignments and evaluations compared with the mirror tree'
for p in ('P16', 'P17', 'P18', 'P19', 'P20', 'P21'): RULE[p] = CT
def one(spec, tier, seed, tmp, i):
    if callable(spec): return spec(tier, seed, tmp)
    label, src, defs, flags, q, t = spec
    path = src(tmp, tier, seed) if callable(src) else os.path.join(H, src)
    exe = os.path.join(tmp, 'h%d' % i)
    cxx = shutil.which('clang++-18') or '/usr/bin/clang++'
    p = subprocess.run([cxx, '-std=gnu++17', '-w', '-O1', '-g1', '-I' + REPO, '-I' + H] + defs + flags + [path, '-o', exe], capture_output=True, text=True)
    if p.returncode:
        p2 = subprocess.run(['/usr/bin/g++', '-std=gnu++17', '-w', '-O1', '-g1', '-I' + REPO, '-I' + H] + defs + [f for f in flags if 'ignorelist' not in f] + [path, '-o', exe], capture_output=True, text=True)
        if p2.returncode:
            # the harness uses the public interface only: an error inside the library's own headers is a template body that cannot be instantiated
            inside = [l for l in p.stderr.splitlines() if re.match(re.escape(REPO) + r'/\S+: error: ', l)]
            r = dict(error='%s: does not compile: %s' % (label, p.stderr[:1500]), cases=0, distinct=0, samples=[], fails=[])
            if inside: r['broken'] = '%s: a program accepted before no longer compiles, the error is inside the library: %s' % (label, inside[0])
            return r
    n = q if tier == 'quick' else t; secs = 20 if tier == 'quick' else 240
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
    try: p = subprocess.run([exe, str(seed), str(n), '-1', str(secs)], capture_output=True, text=True, errors='replace', timeout=secs + 60, env=env); out, rc, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as e: out, rc, err = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout', ''
    r = dict(cases=0, distinct=0, samples=[], fails=[])
    for l in out.splitlines():
        f = l.split('\t')
        if f[0] == 'FAIL': r['fails'].append(dict(key=f[1], text='[%s] %s: %s' % (label, f[1], '\t'.join(f[2:]))))
        elif f[0] == 'SAMPLE': r['samples'].append(f[1])
        elif f[0] == 'CASES': r['cases'], r['distinct'] = int(f[1]), int(f[2])
    if rc not in (0, 1) and not r['fails']:
        m = re.search(r'runtime error: .*', err)
        if rc == 'timeout': r['error'] = label + ': time limit'
        else: r['fails'].append(dict(key='abnormal end', text='[%s] the harness ended with status %s: %s' % (label, rc, (m.group(0) if m else err[-600:]))))
    m = [l for l in err.splitlines() if 'ERROR: AddressSanitizer' in l or 'runtime error' in l]
    if m and r['fails']: r['fails'][0]['text'] += ' | ' + m[0][:300]
    return r
def main(P, tier, seed, outp):
    import concurrent.futures as cf
    specs = SPECS.get(P, []); tot = dict(cases=0, distinct=0, samples=[], fails=[], rule=RULE.get(P, RULE['']), rerun='python3-vt vc/replay.py %s %s %s out.json' % (P, tier, seed))
    tmp = tempfile.mkdtemp(prefix='vmh-'); errs = []
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(lambda i: one(specs[i], tier, seed, tmp, i), range(len(specs))):
                tot['cases'] += r['cases']; tot['distinct'] += r['distinct']; tot['samples'] += r['samples'][:6]; tot['fails'] += r['fails']
                if r.get('error'): errs.append(r['error'])
                if r.get('broken'): tot.setdefault('broken', []).append(r['broken'])
    finally: shutil.rmtree(tmp, ignore_errors=True)
    if errs: tot['error'] = '; '.join(errs)
    json.dump(tot, open(outp, 'w'))
def start(P, tier, seed):
    fd, outp = tempfile.mkstemp(prefix='vmh-', suffix='.json'); os.close(fd)
    return (subprocess.Popen([sys.executable, os.path.abspath(__file__), P, tier, str(seed), outp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), outp)
def finish(h, limit):
    p, outp = h
    try: p.wait(limit)
    except subprocess.TimeoutExpired: p.kill(); os.unlink(outp); return dict(error='time limit', cases=0, distinct=0, samples=[], fails=[], rule='')
    s = open(outp).read(); os.unlink(outp)
    if not s: return dict(error='runner failed: ' + p.stderr.read().decode(errors='replace')[-800:], cases=0, distinct=0, samples=[], fails=[], rule='')
    return json.loads(s)
if __name__ == '__main__':
    sys.path.insert(0, HERE); main(*sys.argv[1:5])
