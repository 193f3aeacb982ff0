"""python3-vt tools/mut.py mutants.py [--tests] [id..]: run the checks on mutated copies of /repo (VP_REPO), several at a time.
mutants.py defines M = [(id, 'Pxx[,Pyy]', [(file, old, new)] or (file, old, new[, nth]))]."""
import sys, os, subprocess, shutil, concurrent.futures as cf, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns); only = [a for a in sys.argv[2:] if not a.startswith('-')]
def one(m):
    i, props, e = m[:3]; d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        wt = os.path.join(d, 'repo'); subprocess.run('git -C /repo archive HEAD | (mkdir %s; tar x -C %s)' % (wt, wt), shell=True, check=True)
        for ed in (e if isinstance(e, list) else [e]):
            f, old, new = ed[:3]; p = os.path.join(wt, f); t = open(p).read(); n = ed[3] if len(ed) > 3 else None
            c = t.count(old)
            if c == 0 or c > 1 and n is None: return i, ['%d matches in %s' % (c, f)]
            if n == 'all': open(p, 'w').write(t.replace(old, new)); continue
            k = -1
            for _ in range((n or 0) + 1): k = t.index(old, k + 1)
            open(p, 'w').write(t[:k] + new + t[k + len(old):])
        out = []
        if '--tests' in sys.argv:
            b = subprocess.run('for t in tests/src/*.cpp; do case $t in *external*) continue;; esac; g++ -w -I. $t -o %s/t 2>%s/err || { echo "no compile $t"; tail -3 %s/err; break; }; timeout 60 %s/t >/dev/null 2>&1 || echo "test fails $t"; done' % (d, d, d, d), shell=True, cwd=wt, capture_output=True, text=True)
            if b.stdout.strip(): out.append('TESTS: ' + b.stdout.strip()[:300])
        v = os.path.join(d, 'verif'); shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        for q in props.split(','):
            r = subprocess.run(['python3-vt', 'check.py', '--prop', q, '--jobs', '4'] + (['--no-harness'] if '--nh' in sys.argv else []), cwd=v, capture_output=True, text=True, env=dict(os.environ, VP_REPO=wt))
            l = r.stdout.strip().splitlines(); vi = [x for x in l if x.startswith('VIOLATION')]
            w = ''
            if vi and 'no-failing' not in vi[0]: w = next((x for x in open(os.path.join(v, 'evidence', 'replay-%s.txt' % q)).read().splitlines() if x.startswith('[')), '')[:160]
            elif vi: w = next((x for x in open(os.path.join(v, 'evidence', 'replay-%s.txt' % q)).read().splitlines() if x.startswith('FAILED')), '')[:160]
            out.append('%s %s | %s %s' % (q, ('CAUGHT' if 'no-failing' not in vi[0] else 'caught (no input)') if vi else 'quiet rc %d' % r.returncode, l[0 if len(l) < 2 else -2][:150] if l else r.stderr[-200:], w))
        return i, out
    finally: shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    for i, out in ex.map(one, [m for m in ns['M'] if not only or m[0] in only]):
        print(i); [print('   ', o) for o in out]; sys.stdout.flush()
