"""python3-vt tools/automut.py SEED N [file-substring] > log: random small mutations of /repo's headers (on copies); for each
that compiles with the tests and passes them, runs the checks of the properties anchored in the file until one catches it."""
import sys, os, re, random, subprocess, shutil, tempfile, json, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed, N = int(sys.argv[1]), int(sys.argv[2]); sel = sys.argv[3] if len(sys.argv) > 3 else ''
rnd = random.Random(seed)
MAN = json.load(open(os.path.join(HERE, 'MANIFEST.json'))); claimed = [c['property'] if 'property' in c else c.get('property_id', c.get('id')) for c in MAN['checks']]
PR = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
SW = [(r'\blhs\b', 'rhs'), (r'\brhs\b', 'lhs'), (r'\blhs_?(?=[.(-])', 'rhs_'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' < ', ' > '), (r'&&', '||'), (r'\|\|', '&&'),
      (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'!(?=[\w(])', ''), (r'->clone\(\)', ''), (r'\bop_plus\b', 'op_minus'), (r'\bop_minus\b', 'op_plus'), (r'\bop_mult\b', 'op_div'), (r'\bop_div\b', 'op_mult'),
      (r'\bop_sin\b', 'op_cos'), (r'\bop_cos\b', 'op_sin'), (r'\bop_exp\b', 'op_sqrt'), (r'\blhs_', 'rhs_'), (r'\brhs_', 'lhs_'), (r'lhs_\.get\(\)', 'rhs_.get()'), (r'\blower\b', 'upper'), (r'\bupper\b', 'lower'), (r'\+\+i', '--i'), (r'\+=', '-='),
      (r'release\(\)', 'get()'), (r'diff\(', 'simplify('), (r'->diff\((\w+)\)', r'->simplify()'), (r'\.simplify\(\)', '.clone()'), (r'dynamic_cast', 'static_cast'), (r'\b3\b', '2'), (r'\bbreak;', ';'), (r'\bid_\b', '0'), (r'get\(\)', 'release()'), (r'\bresult\b', 'temp')]
DEL = re.compile(r'^\s+[\w\[\]().>*:-]+(\s*=|\.reset\(|->|\(|\.push_back).*;\s*$')
def files():
    for r, d, f in os.walk('/repo/viennamath'):
        for n in f:
            p = os.path.join(r, n)
            if p.endswith('.hpp') and sel in p and (sel or 'latex' not in p and 'functor_wrapper' not in p and 'compiletime/ct_equation' not in p): yield p
def cands():
    out = []
    for p in sorted(files()):
        L = open(p).read().split('\n'); cm = False
        for i, l in enumerate(L):
            s = l.strip()
            if '/*' in s: cm = True
            if cm or s.startswith(('//', '#', '*')) or not s or 'template' in s and '{' not in s or 'std::cout' in s or not sel and 'ss <<' in s or 'std::endl' in s or not sel and 'str(' in s or 'class' in s or 'typedef' in s: cm = cm and '*/' not in s; continue
            code = l.split('//')[0]
            if not re.search(r'[;{]|\b(return|if|for|while|\?|&&|\|\|)', code) and not re.search(r'^\s*(new |lhs|rhs|typename|op_|ct_)', code): continue
            if 'const &' in code and not re.search(r'\b(return|dynamic_cast)\b', code): continue
            for a, b in SW:
                for m in re.finditer(a, code):
                    out.append((p, i, code[:m.start()] + re.sub(a, b, m.group(0)) + code[m.end():], a + '->' + b))
            if DEL.match(code) and 'return' not in code and 'throw' not in code: out.append((p, i, '', 'delete'))
    return out
C = cands(); rnd.shuffle(C)
# spread over files and lines
pick = []; cnt = {}
for c in C:
    if cnt.get(c[0], 0) >= max(2, N if sel else N // 10) or cnt.get((c[0], c[1]), 0): continue
    cnt[c[0]] = cnt.get(c[0], 0) + 1; cnt[(c[0], c[1])] = 1; pick.append(c)
    if len(pick) >= N: break
def order(rel):
    a = [p['id'] for p in PR if p['id'] in claimed and any(rel in f or f in rel for f in p['anchors']['files'])]
    return a + [c for c in claimed if c not in a]
def one(c):
    p, i, new, what = c; rel = os.path.relpath(p, '/repo'); d = tempfile.mkdtemp(prefix='am-', dir='/tmp')
    try:
        wt = os.path.join(d, 'repo'); subprocess.run('git -C /repo archive HEAD | (mkdir %s; tar x -C %s)' % (wt, wt), shell=True, check=True)
        q = os.path.join(wt, rel); L = open(q).read().split('\n'); old = L[i]; L[i] = new; open(q, 'w').write('\n'.join(L))
        hd = '%s:%d %s | %s' % (rel, i + 1, old.strip()[:110], new.strip()[:110])
        b = subprocess.run('for t in tests/src/*.cpp; do case $t in *external*) continue;; esac; g++ -w -I. $t -o %s/t 2>%s/err || { echo nocompile; break; }; timeout 60 %s/t >/dev/null 2>&1 || { echo "testfail"; break; }; done' % (d, d, d), shell=True, cwd=wt, capture_output=True, text=True)
        if b.stdout.strip(): return hd, b.stdout.strip()
        v = os.path.join(d, 'verif'); shutil.copytree(HERE, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        res = []
        for P in order(rel):
            r = subprocess.run(['python3-vt', 'check.py', '--prop', P, '--jobs', '4'], cwd=v, capture_output=True, text=True, env=dict(os.environ, VP_REPO=wt))
            vi = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            if vi: return hd, ('CAUGHT ' if 'no-failing' not in vi[0] else 'caught-noinput ') + P + ' (quiet: %s)' % ','.join(res)
            res.append(P + ('' if r.returncode == 0 else '!rc%d' % r.returncode))
        return hd, 'SURVIVED ' + ','.join(res)
    finally: shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    for hd, out in ex.map(one, pick): print(out + '\t' + hd); sys.stdout.flush()
