"""Bounded cross-check for P03 and P22: one C++ function per operand-kind pair
and operator (P03) or per generated compile-time nesting (P22), compiled against
/repo and run with random operands.  Lines the library rejects at compile time
are dropped and counted."""
import os, re, subprocess, random, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); H = os.path.join(ROOT, 'harness')
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = shutil.which('clang++-18') or '/usr/bin/clang++'
NP = 8
MAIN = '''#include "p.cpp"
%s
typedef void (*F)(Rng&);
%s
static const F tab[] = { %s };
static std::vector<F> list() { std::vector<F> v; for (F f : tab) v.push_back(f); return v; }
void run_case(Rng& r) { static std::vector<F> v = list(); F f = v[case_no %% v.size()]; try { f(r); } catch (std::exception const& e) { fail("exception", e.what()); } catch (...) { fail("exception", "unknown type"); } }
'''
def why(err, src, line):
    i = err.find('%s:%d:' % (src, line)); e = [l for l in err[:max(i, 0) + 400].splitlines() if ' error: ' in l]
    return e[-1][:300] if e else ''
def build_run(lines, prop, tier, seed, tmp, cases):
    """compiles the lines in NP translation units, dropping rejected ones, and runs each"""
    known = set(open(os.path.join(HERE, 'ops_reject.txt')).read().split('\n'))
    lines = [x for x in lines if x[0] not in known]
    parts = [lines[i::NP] for i in range(NP)]
    def part(k):
        alive = dict(enumerate(c for _, c in parts[k])); src = os.path.join(tmp, 'o%d.cpp' % k); exe = os.path.join(tmp, 'o%d' % k); dropped = []
        for rnd in range(12 if os.environ.get('VP_REJECTS') else 5):
            order = sorted(alive)
            body = ''.join('static void t%d(Rng& r) { %s }\n' % (i, alive[i]) for i in order)
            txt = MAIN % ('#include "ops.hpp"', body, ', '.join('t%d' % i for i in order)); n0 = txt.index('static void t'); n0 = txt.count('\n', 0, n0)
            open(src, 'w').write(txt)
            p = subprocess.run([CLANG, '-std=gnu++17', '-w', '-O0', '-DPROP=%d' % prop, '-I' + REPO, '-I' + H, '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics', src, '-o', exe], capture_output=True, text=True, errors='replace')
            if p.returncode == 0: break
            bad = {int(m) for m in re.findall(re.escape(src) + r':(\d+):', p.stderr)}
            drop = {order[l - n0 - 1] for l in bad if 0 <= l - n0 - 1 < len(order)}
            if not drop: return dict(error='the harness does not compile: ' + p.stderr[:1200], dropped=dropped)
            for i in drop: dropped.append((parts[k][i][0], why(p.stderr, src, order.index(i) + n0 + 1)))
            for i in drop: alive.pop(i)
            if not alive: return dict(dropped=dropped, out='', rc=0)
        else: return dict(error=None if dropped else 'no accepted set of lines', dropped=dropped, out='', rc=0)
        secs = 15 if tier == 'quick' else 150
        try: p = subprocess.run([exe, str(seed), str(cases * len(alive)), '-1', str(secs)], capture_output=True, text=True, errors='replace', timeout=secs + 60)
        except subprocess.TimeoutExpired: return dict(error='time limit', dropped=dropped)
        return dict(out=p.stdout, rc=p.returncode, err=p.stderr[-500:], dropped=dropped)
    r = dict(cases=0, distinct=0, samples=[], fails=[]); errs = []; nd = []
    with cf.ThreadPoolExecutor(NP) as ex: res = list(ex.map(part, range(NP)))
    for q in res:
        nd += q['dropped']
        if q.get('error'): errs.append(q['error']); continue
        for l in q['out'].splitlines():
            f = l.split('\t')
            if f[0] == 'FAIL': r['fails'].append(dict(key=f[1], text='%s: %s' % (f[1], '\t'.join(f[2:]))))
            elif f[0] == 'SAMPLE': r['samples'].append(f[1])
            elif f[0] == 'CASES': r['cases'] += int(f[1]); r['distinct'] += int(f[2])
        if q['rc'] not in (0, 1) and not any(f[0:4] == 'FAIL' for f in q['out'].splitlines()): r['fails'].append(dict(key='abnormal end', text='the harness ended with status %s: %s' % (q['rc'], q.get('err'))))
    r['samples'] = r['samples'][:12]
    if nd: r['samples'].append('%d of %d lines are rejected by the library at compile time' % (len(nd), len(lines)))
    if os.environ.get('VP_REJECTS'): open(os.environ['VP_REJECTS'], 'a').write(''.join(l + '\n' for l, w in nd if not l.startswith('assignment to rt_binary_expr')))
    for l, w in nd:
        if not l.startswith('assignment to rt_binary_expr'): r['fails'].append(dict(key='no longer compiles', text='the program line %s no longer compiles: %s' % (l, w)))
    if errs: r['error'] = '; '.join(sorted(set(errs)))[:1500]
    return r
# ---------------------------------------------------------------- P03
CT = {'cw': ('vm::ct_variable<7>()', 'mkv(7)'), 'ck': ('vm::ct_constant<5000000001L>()', 'mkc(5000000001.0)'), 'cc': ('vm::ct_constant<3>()', 'mkc(3)'), 'cm': ('vm::ct_constant<-3>()', 'mkc(-3)'), 'c1': ('vm::ct_constant<1>()', 'mkc(1)'), 'c0': ('vm::ct_constant<0>()', 'mkc(0)'), 'cv': ('vm::ct_variable<1>()', 'mkv(1)'),
      'cb': ('(vm::ct_variable<0>() - vm::ct_variable<1>())', 'mkb(O_MINUS, mkv(0), mkv(1))'), 'cV': ('(vm::ct_variable<1>() + vm::ct_variable<0>())', 'mkb(O_PLUS, mkv(1), mkv(0))'),
      'cp': ('(vm::ct_constant<5000000007L>() + vm::ct_variable<0>())', 'mkb(O_PLUS, mkc(5000000007.0), mkv(0))'), 'cn': ('(vm::ct_constant<5000000007L>() - vm::ct_variable<0>())', 'mkb(O_MINUS, mkc(5000000007.0), mkv(0))'),
      'cd': ('(vm::ct_variable<0>() / vm::ct_variable<1>())', 'mkb(O_DIV, mkv(0), mkv(1))'), 'cx': ('(vm::ct_variable<0>() * vm::ct_variable<1>())', 'mkb(O_MULT, mkv(0), mkv(1))')}
CTB = ('cb', 'cV', 'cp', 'cn', 'cd', 'cx'); CTN = ('cc', 'cm', 'c1', 'c0', 'ck')
RT = ['E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI', 'd', 'l', 'i']; NUM = ('d', 'l', 'i')
HEADERS = {'q': 'cq'}
def bind(k, n):
    if k in CT: return 'T t%s = %s;' % (n, CT[k][1])
    return 'O%s o%s(r); auto const& %s = o%s.o; T t%s = o%s.t;' % (k, n, n, n, n, n)
def txt(k, n): return CT[k][0] if k in CT else n
def lines03():
    out = []; ks = RT + list(CT)
    for op, on in (('+', 'O_PLUS'), ('-', 'O_MINUS'), ('*', 'O_MULT'), ('/', 'O_DIV')):
        for a in ks:
            for b in ks:
                if a in NUM and b in NUM: continue
                sem = a in CTB or b in CTB or (a in CT and b in CT); ev = op in '+-' and (a in ('C', 'CL', 'CI') and b in CTB or b in ('C', 'CL', 'CI') and a in CTB)
                lim = 31 if 'i' in (a, b) or 'CI' in (a, b) else 62
                w = '%s %s %s' % (a, op, b); e = '%s %s %s' % (txt(a, 'a'), op, txt(b, 'b'))
                s = bind(a, 'a') + ' ' + bind(b, 'b') + ' begin_case("%s with " + show(ta) + " and " + show(tb)); ' % w
                s2 = ' '.join('same_opnd("%s", o%s);' % (w, n) for k, n in ((a, 'a'), (b, 'b')) if k not in CT)
                out.append((w, s + 'RE R(%s); ' % e + ('sem(r, "%s", rd(R), %s, ta, tb);' % (w, on) if sem else 'str("%s", rd(R), %s, ta, tb, %d);' % (w, on, lim)) + s2))
                if ev or sem and a in CT and b in CT: out.append((w + ' evaluated', s + 'val(r, "%s evaluated", mkb(%s, ta, tb), [&](P3 const& p) { return (%s)(p); });' % (w, on, e)))
    # runtime constants folded into compile-time sums
    OPS = (('+', 'O_PLUS'), ('-', 'O_MINUS'), ('*', 'O_MULT'), ('/', 'O_DIV'))
    def mixed(lab, e, mm, bd, bp):
        out.append(('mixed ' + lab + ' evaluated', bd + ' begin_case("%s with " + %s); val(r, "%s", %s, [&](P3 const& p) { return (%s)(p); });' % (e, bp, lab, mm, e)))
        out.append(('mixed ' + lab, bd + ' begin_case("%s converted with " + %s); RE R(%s); same_value("wrong value of %s", rd(R), %s, r, true);' % (e, bp, e, lab, mm)))
    for k in ('C', 'CL', 'CI', 'E', 'V', 'B', 'd'):
        for o1, n1 in OPS:
            for o2, n2 in OPS[:2]:
                for sw in (0, 1):
                    c = '(vm::ct_constant<5000000007L>() %s vm::ct_variable<0>())' % o2; m = 'mkb(%s, mkc(5000000007.0), mkv(0))' % n2
                    mixed('%s with 5 %s x0%s %s' % (k, o2, ' on the left' if sw else '', o1), '%s %s %s' % ((c, o1, 'a') if sw else ('a', o1, c)), 'mkb(%s, %s)' % (n1, m + ', ta' if sw else 'ta, ' + m), bind(k, 'a'), 'show(ta)')
    for k, k2 in (('C', 'C'), ('CL', 'CL'), ('CI', 'CI'), ('C', 'CL'), ('CL', 'C'), ('C', 'cc'), ('cc', 'C'), ('CL', 'cc'), ('cc', 'CL'), ('cc', 'cm'), ('cc', 'cv'), ('C', 'cv'), ('cv', 'C')):
        for o0, n0 in OPS:
            for o1, n1 in OPS[:2]:
                for o2, n2 in OPS[:2]:
                    for x, mx in (('vm::ct_variable<0>()', 'mkv(0)'), ('(vm::ct_variable<0>() / vm::ct_variable<1>())', 'mkb(O_DIV, mkv(0), mkv(1))'))[:1 if o0 in '*/' else 2]:
                        for sw in (0, 1):
                            c = '(%s %s (vm::ct_constant<5000000007L>() %s %s))' % (txt(k2, 'b'), o1, o2, x); m = 'mkb(%s, tb, mkb(%s, mkc(5000000007.0), %s))' % (n1, n2, mx)
                            bd = bind(k, 'a') + ' ' + bind(k2, 'b')
                            mixed('%s %s %s (%s 5 %s %s)%s' % (k, o0, k2, o1, o2, 'x0' if mx == 'mkv(0)' else 'x0/x1', ' on the left' if sw else ''), '%s %s %s' % ((c, o0, txt(k, 'a')) if sw else (txt(k, 'a'), o0, c)), 'mkb(%s, %s)' % (n0, m + ', ta' if sw else 'ta, ' + m), bd, 'show(ta) + " and " + show(tb)')
    for f in ('exp', 'sin', 'cos', 'tan', 'fabs', 'sqrt', 'log', 'log10', 'grad', 'div'):
        on = 'O_' + {'div': 'DIVG'}.get(f, f.upper())
        for k in ['E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI'] + list(CT):
            if k in CTN or k in ('C', 'CL', 'CI'): cmp = 'leafis(u->ch[0], ta)'
            else: cmp = 'eq(u->ch[0], ta)'
            out.append(('%s of %s' % (f, k), bind(k, 'a') + ' begin_case("%s of %s " + show(ta)); RE R(vm::%s(%s)); T u = rd(R); if (u->k != K_UN || u->op != %s || !%s) fail("%s of %s", "gave " + show(u));' % (f, k, f, txt(k, 'a'), on, cmp, f, k) + ('' if k in CT else ' same_opnd("%s of %s", oa);' % (f, k))))
    return out
# ---------------------------------------------------------------- P22
def ctt(t):
    k = t[0]
    if k == 'c': return 'vm::ct_constant<%dL>' % t[1]
    if k == 'v': return 'vm::ct_variable<%d>' % t[1]
    return 'vm::ct_binary_expr<%s, vm::op_%s<double>, %s >' % (ctt(t[2]), {'+': 'plus', '-': 'minus', '*': 'mult', '/': 'div'}[t[1]], ctt(t[3]))
def ctm(t):
    k = t[0]
    if k == 'c': return 'mkc(%d.0)' % t[1]
    if k == 'v': return 'mkv(%d)' % t[1]
    return 'mkb(%s, %s, %s)' % ({'+': 'O_PLUS', '-': 'O_MINUS', '*': 'O_MULT', '/': 'O_DIV'}[t[1]], ctm(t[2]), ctm(t[3]))
def lines22(rnd, n):
    leaf = lambda: rnd.choice([('v', rnd.randrange(6)), ('v', rnd.randrange(3)), ('c', rnd.choice([0, 1, -1, 2, 3, -7, 100, 5000000007, -5000000007, 123456789012]))])
    def tree(d): return leaf() if d <= 0 or rnd.random() < .2 else ('b', rnd.choice('+-*/'), tree(d - 1), tree(d - 1))
    ts = [('c', v) for v in (0, 1, -1, 7, -7, 5000000007, -5000000007)] + [('v', i) for i in range(6)]
    lv = [('v', 0), ('v', 4), ('c', 2), ('c', -5000000007)]; b0 = ('b', '-', ('v', 0), ('c', 3))
    for o in '+-*/':
        for a in lv + [b0]:
            for b in lv + [('b', '/', ('v', 2), ('v', 1))]: ts.append(('b', o, a, b))
    ts += [tree(rnd.randrange(1, 5)) for _ in range(n)]; out = []
    for t in ts:
        T, M = ctt(t), ctm(t); h = 'T m = %s; begin_case("%%s of " + show(m)); ' % M
        b = t[0] == 'b'
        for nm, code in (('conversion to rt_expr', 'RE R = RE(%s()); tre("%s", rd(R), m);'), ('assignment to rt_expr', 'RE R = mk(mkb(O_PLUS, mkv(7), mkc(2))); R = %s(); tre("%s", rd(R), m);')) + \
                ((('conversion to rt_binary_expr', 'RB R = RB(%s()); tre("%s", rd(&R), m);'), ('assignment to rt_binary_expr', 'RB R(asB(mk(mkb(O_PLUS, mkv(7), mkc(2))))); R = %s(); tre("%s", rd(&R), m);')) if b else ()):
            out.append((nm + ' of ' + ctt(t), h % nm + code % (T, nm)))
        out.append(('direct evaluation of ' + ctt(t), h % 'evaluation' + 'val(r, "direct evaluation", m, [&](P3 const& p) { return %s()(p); });' % T))
        out.append(('eval() of ' + ctt(t), h % 'evaluation' + 'val(r, "eval()", m, [&](P3 const& p) { return vm::eval(%s(), p); });' % T))
        out.append(('evaluation of the converted expression of ' + ctt(t), h % 'evaluation' + 'val(r, "evaluation of the converted expression", m, [&](P3 const& p) { return RE(%s())(p); });' % T))
    return out
def make(prop):
    def run(tier, seed, tmp):
        rnd = random.Random(int(seed) * 7919 + prop)
        open(os.path.join(tmp, 'ops.hpp'), 'w').write(open(os.path.join(H, 'ops.hpp')).read())
        ls = lines03() if prop == 3 else lines22(rnd, 60 if tier == 'quick' else 400)
        return build_run(ls, prop, tier, seed, tmp, 12 if tier == 'quick' else 400)
    return run
def add(SPECS):
    for p in (3, 22): SPECS['P%02d' % p] = [make(p)]
