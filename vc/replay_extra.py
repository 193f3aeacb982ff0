"""Bounded cross-check of the compile-time metafunctions: generated type
applications are compiled against /repo, the resulting types are printed as
S-expressions and compared with an exact (rational) reference semantics.
Applications the library rejects at compile time are dropped and counted."""
import os, re, subprocess, random, shutil
from fractions import Fraction as Fr
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
HEADERS = ['viennamath/expression.hpp'] + ['viennamath/manipulation/%s.hpp' % x for x in ('simplify', 'diff', 'expand', 'coefficient', 'drop_dependent_terms', 'integrate', 'substitute', 'eval')]
CLANG = shutil.which('clang++-18') or '/usr/bin/clang++'
OPN = {'+': 'op_plus', '-': 'op_minus', '*': 'op_mult', '/': 'op_div'}
class NotWd(Exception): pass
# trees: ('c', n) ('v', i) ('f', k) ('b', op, l, r) ('u', name, l)
def C(n): return ('c', n)
def V(i): return ('v', i)
def Bn(o, l, r): return ('b', o, l, r)
def cxx(t):
    k = t[0]
    if k == 'c': return 'ct_constant<%dL>' % t[1] if t[1] > -2**63 else 'ct_constant<(-9223372036854775807L-1)>'
    if k == 'v': return 'ct_variable<%d>' % t[1]
    if k == 'f': return 'ct_function_symbol<%s>' % ('unknown_tag<0>' if t[1] == 0 else 'test_tag<0>')
    if k == 'u': return 'ct_unary_expr<%s, %s<double> >' % (cxx(t[2]), t[1])
    return 'ct_binary_expr<%s, %s<double>, %s >' % (cxx(t[2]), OPN[t[1]], cxx(t[3]))
def sx(t):
    k = t[0]
    if k == 'c': return str(t[1])
    if k == 'v': return 'x%d' % t[1]
    if k == 'f': return 'u%d' % t[1]
    if k == 'u': return '%s(%s)' % (t[1], sx(t[2]))
    return '(%s %s %s)' % (sx(t[2]), t[1], sx(t[3]))
def ev(t, env):
    k = t[0]
    if k == 'c': return Fr(t[1])
    if k == 'v': return env[('v', t[1])]
    if k == 'f': return env[('f', t[1])]
    if k == 'u':
        x = ev(t[2], env); h = hash((t[1], x)) % 1000003
        return Fr(h, 17)            # an arbitrary function of the argument's value
    x, y = ev(t[2], env), ev(t[3], env); o = t[1]
    if o == '+': return x + y
    if o == '-': return x - y
    if o == '*': return x * y
    if y == 0: raise NotWd()
    return x / y
def dd(t, env, v):
    """(value, derivative) by forward differentiation"""
    k = t[0]
    if k == 'c': return Fr(t[1]), Fr(0)
    if k == 'v': return env[t], Fr(1 if t == v else 0)
    if k in 'fu': raise NotWd()
    (x, dx), (y, dy) = dd(t[2], env, v), dd(t[3], env, v); o = t[1]
    if o == '+': return x + y, dx + dy
    if o == '-': return x - y, dx - dy
    if o == '*': return x * y, dx * y + x * dy
    if y == 0: raise NotWd()
    return x / y, (dx * y - x * dy) / (y * y)
def poly(t, env, X):
    """coefficients in X (other symbols by value); NotWd outside the polynomials"""
    k = t[0]
    if t == X: return [Fr(0), Fr(1)]
    if k in 'cvfu': return [ev(t, env)]
    a, b = poly(t[2], env, X), poly(t[3], env, X); o = t[1]
    if o in '+-':
        n = max(len(a), len(b)); a += [Fr(0)] * (n - len(a)); b += [Fr(0)] * (n - len(b))
        return [p + q if o == '+' else p - q for p, q in zip(a, b)]
    if o == '*':
        r = [Fr(0)] * (len(a) + len(b) - 1)
        for i, p in enumerate(a):
            for j, q in enumerate(b): r[i + j] += p * q
        return r
    if dep(t[3], X) or b[0] == 0: raise NotWd()
    return [p / b[0] for p in a]
def dep(t, X): return t == X or t[0] == 'b' and (dep(t[2], X) or dep(t[3], X)) or t[0] == 'u' and dep(t[2], X)
def degb(t, F):
    if t == F: return 1
    if t[0] in 'cvf': return 0
    if t[0] == 'u': return 2 if dep(t, F) else 0
    x, y = degb(t[2], F), degb(t[3], F)
    if t[1] == '*': return x + y
    if t[1] == '/': return x if y == 0 else 2
    return max(x, y)
def sub(t, S, Rp):
    if t == S: return Rp
    if t[0] == 'b': return Bn(t[1], sub(t[2], S, Rp), sub(t[3], S, Rp))
    if t[0] == 'u': return ('u', t[1], sub(t[2], S, Rp))
    return t
def big(t):
    """largest integer the exact folding of t may need (long range is assumed)"""
    if t[0] == 'c': return max(2, abs(t[1]))
    if t[0] == 'b': return big(t[2]) * big(t[3])
    if t[0] == 'u': return big(t[2])
    return 2
def parse(s):
    toks = re.findall(r'\(|\)|[^\s()]+', s); i = 0
    def p():
        nonlocal i
        if toks[i] != '(':
            w = toks[i]; i += 1
            return ('other', w)
        i += 1; k = toks[i]; i += 1
        if k in ('c', 'v', 'f'): n = int(toks[i]); i += 1; r = (k, n)
        elif k == 'b': o = toks[i]; i += 1; l = p(); q = p(); r = ('b', o, l, q)
        elif k == 'u': o = toks[i]; i += 1; r = ('u', o, p())
        else: raise ValueError(s)
        i += 1; return r
    return p()
PRE = '''#include <cstdio>
#include <string>
%s
using namespace viennamath;
template <typename T> struct P;
template <long v> struct P<ct_constant<v> > { static std::string p() { return "(c " + std::to_string(v) + ")"; } };
template <id_type v> struct P<ct_variable<v> > { static std::string p() { return "(v " + std::to_string(v) + ")"; } };
template <> struct P<ct_function_symbol<unknown_tag<0> > > { static std::string p() { return "(f 0)"; } };
template <> struct P<ct_function_symbol<test_tag<0> > > { static std::string p() { return "(f 1)"; } };
template <typename T> struct O { static std::string p() { return __PRETTY_FUNCTION__; } };
template <> struct O<op_plus<double> > { static std::string p() { return "+"; } };
template <> struct O<op_minus<double> > { static std::string p() { return "-"; } };
template <> struct O<op_mult<double> > { static std::string p() { return "*"; } };
template <> struct O<op_div<double> > { static std::string p() { return "/"; } };
template <template <typename> class Q> struct O<op_unary<Q<double>, typename rt_expr<>::interface_type> > { static std::string p() { return "?"; } };
#define U(N) template <> struct O<N<double> > { static std::string p() { return #N; } };
U(op_sin) U(op_exp) U(op_sqrt)
template <typename L, typename Q, typename R> struct P<ct_binary_expr<L, Q, R> > { static std::string p() { return "(b " + O<Q>::p() + " " + P<L>::p() + " " + P<R>::p() + ")"; } };
template <typename L, typename Q> struct P<ct_unary_expr<L, Q> > { static std::string p() { return "(u " + O<Q>::p() + " " + P<L>::p() + ")"; } };
inline void out(int i, std::string const & s) { std::printf("%%d\\t%%s\\n", i, s.c_str()); }
inline void num(int i, double v) { std::printf("%%d\\t%%.17g\\n", i, v); }
'''
PRE = PRE.replace('template <template <typename> class Q> struct O<op_unary<Q<double>, typename rt_expr<>::interface_type> > { static std::string p() { return "?"; } };\n', '')
def runlines(lines, tmp, tag, limit=60):
    """compile every line in its own function; drop the rejected ones; -> {i: text}, number dropped, error"""
    n0 = (PRE % ''.join('#include "%s"\n' % h for h in HEADERS)).count('\n')
    alive = dict(enumerate(lines)); src = os.path.join(tmp, tag + '.cpp'); exe = os.path.join(tmp, tag)
    for rnd in range(12):
        order = sorted(alive)
        with open(src, 'w') as f:
            f.write(PRE % ''.join('#include "%s"\n' % h for h in HEADERS))
            for i in order: f.write('void t%d() { %s }\n' % (i, alive[i]))
            f.write('int main() { ' + ' '.join('t%d();' % i for i in order) + ' return 0; }\n')
        p = subprocess.run([CLANG, '-std=gnu++17', '-w', '-O0', '-I' + REPO, '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics', src, '-o', exe], capture_output=True, text=True, errors='replace')
        if p.returncode == 0: break
        bad = {int(m) for m in re.findall(re.escape(src) + r':(\d+):', p.stderr)}
        drop = {order[l - n0 - 1] for l in bad if 0 <= l - n0 - 1 < len(order)}
        if not drop: return {}, 0, 'the harness does not compile: ' + p.stderr[:1200]
        for i in drop: alive.pop(i)
        if not alive: return {}, len(lines), None
    else: return {}, 0, 'no accepted set of applications'
    try: p = subprocess.run([exe], capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired: return {}, 0, 'time limit'
    res = {}
    for l in p.stdout.splitlines():
        a = l.split('\t', 1)
        if len(a) == 2 and a[0].isdigit(): res[int(a[0])] = a[1]
    return res, len(lines) - len(alive), None
# ---------------------------------------------------------------- generation
def rules(names):
    """rule patterns of the current tree, to aim the applications at"""
    try:
        import ctmeta
        P = ctmeta.extract(REPO, CLANG, HEADERS); out = []; lits = set()
        def lit(a):
            if isinstance(a, tuple):
                if a and a[0] == 'num' and isinstance(a[1], int): lits.add(a[1])
                for x in a: lit(x)
            elif isinstance(a, list):
                for x in a: lit(x)
        for n in names:
            k = P.classes.get(n)
            if not k: continue
            for r in k.specs:
                out.append((n, r))
                for v in r.mem.values(): lit(v)
                lit(r.args)
        return out, sorted(l for l in lits if abs(l) < 2 ** 31)
    except Exception: return [], []
class Gen:
    def __init__(self, rnd, lits, funs=True, un=True):
        self.huge = False; self.r = rnd; self.funs = funs; self.un = un
        self.pool = [0, 1, -1, 2, 3, 4, 6, -2, -6, 5, 12, 30] + [l + d for l in lits for d in (-1, 0, 1)]
        self.bigp = [65536, 100003, 2147483647, 2147483648, 4294967296, 4294967297, -3000000000]
    def const(self):
        if self.r.random() < (.7 if self.huge else .1): return C(self.r.choice(self.bigp))
        return C(self.r.choice(self.pool) if self.r.random() < .8 else self.r.randint(-20, 40))
    def pos(self): return C(self.r.choice([2, 3, 4, 5, 6, 7, 9, 12, -3, -4, 15]))
    def atom(self):
        k = self.r.random()
        if k < .35: return self.const()
        if k < .8: return V(self.r.randint(0, 2))
        if self.funs: return ('f', self.r.randint(0, 1))
        return V(self.r.randint(0, 1))
    def ratio(self): return Bn('/', self.const(), self.pos())
    def tree(self, d):
        if d == 0 or self.r.random() < .2: return self.atom() if self.r.random() < .8 else self.ratio()
        if self.un and self.r.random() < .08: return ('u', self.r.choice(['op_sin', 'op_exp', 'op_sqrt']), self.tree(d - 1))
        o = self.r.choice('++-**/'); l = self.tree(d - 1)
        rr = self.r.random()
        r = l if rr < .08 else self.tree(d - 1)
        if o == '/' and self.r.random() < .6: r = self.pos()
        return Bn(o, l, r)
    def inst(self, a, b, ps):
        """a random instance of a rule pattern; None when it has no counterpart"""
        k = a[0]
        if k == 'name' and a[1] in ps:
            if a[1] not in b:
                b[a[1]] = self.tree(self.r.choice([0, 0, 0, 1, 1, 2])) if ps[a[1]] == 'T' else None
            return b[a[1]]
        if k == 'num': return C(a[1])
        if k != 'app': return None
        if a[1] == 'ct_constant':
            x = a[2][0]
            if x[0] == 'num': return C(x[1])
            if x[0] == 'name' and x[1] in ps: b[x[1]] = b.get(x[1]) or self.const(); return b[x[1]]
            return None
        if a[1] == 'ct_variable':
            x = a[2][0]
            if x[0] == 'num': return V(x[1])
            if x[0] == 'name' and x[1] in ps: b[x[1]] = b.get(x[1]) or V(self.r.randint(0, 2)); return b[x[1]]
            return None
        if a[1] == 'ct_function_symbol': return ('f', self.r.randint(0, 1)) if self.funs else None
        if a[1] == 'ct_unary_expr':
            l = self.inst(a[2][0], b, ps)
            return ('u', self.r.choice(['op_sin', 'op_exp']), l) if l and self.un else None
        if a[1] == 'ct_binary_expr':
            l = self.inst(a[2][0], b, ps); r = self.inst(a[2][2], b, ps); o = a[2][1]
            if l is None or r is None: return None
            op = {'op_plus': '+', 'op_minus': '-', 'op_mult': '*', 'op_div': '/'}.get(o[1]) if o[0] == 'app' else self.r.choice('+-*/')
            return Bn(op, l, r) if op else None
        return None
LONG = 2 ** 62
def envs(rnd, n=7, zero=True):
    out = []
    for i in range(n):
        e = {}
        for k in range(4):
            e[('v', k)] = Fr(rnd.randint(-9, 9), rnd.choice([1, 1, 2, 3, 7])) if i < n - 2 else Fr(rnd.randint(2, 10**6), 999983)
            e[('f', k)] = Fr(rnd.randint(-9, 9), rnd.choice([1, 2, 5])) if i < n - 2 else Fr(rnd.randint(2, 10**6), 999979)
        out.append(e)
    return out
NAMES = {'P16': ['simplify_impl'], 'P17': ['diff'], 'P18': ['expand', 'expand_with_factor', 'expand_product'], 'P19': ['has_factor', 'coefficient_impl', 'extract_factor_from_product', 'expand', 'expand_with_factor', 'expand_product'], 'P20': ['polynomial_degree', 'integrate_impl', 'integrate', 'integrate_monomial', 'pow', 'expand_product'], 'P21': ['substitute', 'eval'],
         'P22': ['simplify_impl', 'diff', 'expand']}
PRODARGS = {'expand_product': (0, 1), 'expand_with_factor': (0, 1), 'extract_factor_from_product': (1, 3)}
EXPRARG = {'simplify_impl': 0, 'diff': 0, 'expand': 0, 'expand_with_factor': 0, 'has_factor': 1, 'coefficient_impl': 1, 'polynomial_degree': 1, 'integrate_impl': 2, 'integrate': 2, 'substitute': 2, 'eval': 0}
def polytree(g, d, X):
    r = g.r
    if d == -1:       # a monomial of higher degree with a coefficient
        k = r.choice([3, 4, 5, 6, 7, 8, 9, 12, 16]); fs = [X] * k + [C(r.choice([2, 3, -5]))] * r.randint(0, 1) + [V(1 - X[1])] * r.randint(0, 1); r.shuffle(fs)
        t = fs[0]
        for f in fs[1:]: t = Bn('*', t, f) if r.random() < .7 else Bn('*', f, t)
        return Bn(r.choice('+-'), t, C(3)) if r.random() < .3 else t
    if d == 0: return r.choice([X, X, C(r.choice([1, 2, 3, -1, 5, -4, 0])), V(1 - X[1]), Bn('/', C(r.choice([1, 3, 5])), C(r.choice([2, 4, 7])))])
    o = r.choice('+-**/'); l = polytree(g, d - 1 if r.random() < .75 else 0, X)
    if o == '/': return Bn(o, l, C(r.choice([2, 3, 5, -4])) if r.random() < .8 else V(1 - X[1]))
    return Bn(o, l, polytree(g, d - 1 if r.random() < .6 else 0, X))
def applications(P, rnd, n):
    """(C++ statement, check(text) -> error or None, description)"""
    rs, lits = rules(NAMES[P])
    g = Gen(rnd, lits, funs=P in ('P16', 'P18', 'P19', 'P21'), un=P in ('P16', 'P21'))
    exprs = []
    small = [C(0), C(1), C(2), C(-3), V(0), V(1), Bn('/', C(1), C(3)), Bn('/', C(6), C(4)), Bn('+', V(0), C(1)), Bn('*', V(0), V(1)), Bn('/', V(0), C(2)), Bn('*', C(2), V(0))]
    if P in ('P16', 'P17', 'P18', 'P22'): exprs += [Bn(o, a, b) for o in '+-*/' for a in small for b in small]; rnd.shuffle(exprs); exprs = exprs[:n // 3]
    if rs:
        per = max(3, (n // 2) // len(rs))
        for nme, r in rs:
            i = EXPRARG.get(nme); ij = PRODARGS.get(nme)
            if r.args is None or max(i or 0, *(ij or (0,))) >= len(r.args) or (i is None and ij is None): continue
            for q in range(per):
                ps = {p[1]: p[0] for p in r.params}; b = {}; g.huge = rnd.random() < .15
                if ij is not None and (i is None or q % 2):
                    l, t = [g.inst(r.args[x], b, ps) for x in ij]
                    t = Bn('*', l, t) if l is not None and t is not None else None
                else: t = g.inst(r.args[i], b, ps)
                g.huge = False
                if t is None: break
                if rnd.random() < .25: t = Bn(rnd.choice('+-*'), t, g.tree(1)) if rnd.random() < .5 else Bn(rnd.choice('+-*'), g.atom(), t)
                exprs.append(t)
    while len(exprs) < n: exprs.append(g.tree(rnd.choice([1, 2, 2, 3])))
    seen = set(); out = []
    for E in exprs:
        if E in seen or (big(E) ** 2 if hasdiv(E) and P != 'P16' else big(E) * 64) > LONG: continue
        seen.add(E)
        mk_app(P, E, g, rnd, out)
    return out
def same(E, Rr, es, what):
    for e in es:
        try: a = ev(E, e)
        except NotWd: continue
        try: b = ev(Rr, e)
        except NotWd: return '%s at %s: expected %s, the result divides by zero' % (what, pt(e), a)
        if a != b: return '%s at %s: expected %s, got %s' % (what, pt(e), a, b)
def pt(e): return '{' + ', '.join('%s=%s' % ('xu'[k[0] == 'f'] + str(k[1]), v) for k, v in sorted(e.items()) if k[1] < 3) + '}'
def safe(f):
    def w(s):
        try: Rr = parse(s)
        except Exception: return 'unreadable result type ' + s[:200]
        try: return f(Rr)
        except KeyError: return None
    return w
VMAPS = [{k: k * s + o for k in range(4)} for s, o in ((256, 0), (256, 1), (65536, 2), (2 ** 32, 1), (16, 3), (10, 7), (64, 1))]
def mk_app(P, E, g, rnd, out):
    T = cxx(E); es = envs(rnd)
    vm = dict(rnd.choice(VMAPS)) if rnd.random() < .15 else {}; iv = {str(n): k for k, n in vm.items()}
    def add(stm, chk, desc, vm=vm):      # the same type with other variable numbers
        if vm: stm = re.sub(r'ct_variable<(\d+)>', lambda m: 'ct_variable<%d>' % vm[int(m.group(1))], stm); c0 = chk; chk = lambda s: c0(re.sub(r'\(v (\d+)\)', lambda m: '(v %s)' % iv.get(m.group(1), m.group(1)), s)); desc += ' with variables numbered %s' % vm
        out.append((stm, chk, desc))
    ty = 'typedef %s R; out(%%d, P<R>::p());'
    if P == 'P16': add(ty % ('result_of::simplify<%s >::type' % T), safe(lambda Rr: same(E, Rr, es, 'value')), 'simplify< %s >' % sx(E))
    if P == 'P18':
        fn = rnd.random() < .5
        add(ty % ('decltype(viennamath::expand(*(%s const *)0))' % T if fn else 'result_of::expand<%s >::type' % T), safe(lambda Rr: same(E, Rr, es, 'value')), 'expand< %s >' % sx(E))
    if P == 'P17':
        v = V(rnd.randint(0, 2)); fn = rnd.random() < .5
        def chk(Rr):
            for e in es:
                try: a = dd(E, e, v)[1]
                except NotWd: continue
                try: b = ev(Rr, e)
                except NotWd: return 'at %s: the derivative is %s, the result divides by zero' % (pt(e), a)
                if a != b: return 'at %s: the derivative is %s, the result is %s' % (pt(e), a, b)
        add(ty % ('decltype(viennamath::diff(*(%s const *)0, %s()))' % (T, cxx(v)) if fn else 'result_of::diff<%s, %s >::result_type' % (T, cxx(v))), safe(chk), 'diff< %s , %s >' % (sx(E), sx(v)))
    if P == 'P19':
        F = rnd.choice([V(0), V(0), V(1), ('f', 0), ('f', 1)])
        if degb(E, F) <= 1:
            def c1(Rr):
                if dep(Rr, F): return 'the coefficient %s contains the factor' % sx(Rr)
                for e in es:
                    try: a = ev(E, e) - ev(E, dict(e, **{}) | {F: Fr(0)}); b = ev(Rr, e)
                    except NotWd: continue
                    if b * e[F] != a: return 'at %s: coefficient %s times factor should be %s' % (pt(e), b, a)
            nm = rnd.random() < .5
            add(ty % ('decltype(viennamath::coefficient(%s(), *(%s const *)0))' % (cxx(F), T) if nm else 'result_of::coefficient<%s, %s >::type' % (cxx(F), T)), safe(c1), 'coefficient< %s , %s >' % (sx(F), sx(E)))
        def c2(Rr):
            for e in es:
                try: a = ev(E, e | {F: Fr(0)})
                except NotWd: continue
                try: b = ev(Rr, e)
                except NotWd: return 'at %s: the result divides by zero, expected %s' % (pt(e), a)
                if a != b: return 'at %s: without the factor the value is %s, the result is %s' % (pt(e), a, b)
        add(ty % ('result_of::drop_dependent_terms<%s, %s >::type' % (cxx(F), T)), safe(c2), 'drop_dependent_terms< %s , %s >' % (sx(F), sx(E)))
    if P == 'P20':
        X = V(rnd.randint(0, 1))
        for I in ([E] if rnd.random() < .3 else []) + [polytree(g, rnd.choice([-1, 0, 1, 1, 2, 2, 3]), X)]:
            lo, hi = rnd.choice([(C(0), C(1)), (C(-1), C(2)), (V(2), C(3)), (C(1), Bn('/', C(3), C(2))), (C(0), V(2)), (V(1 - X[1]), C(1)), (C(2), C(5)), (C(0), Bn('-', C(1), V(1 - X[1])))])
            def c3(Rr, I=I, lo=lo, hi=hi):
                for e in es:
                    try: p = poly(I, e, X); a, b = ev(lo, e), ev(hi, e)
                    except NotWd: continue
                    s = sum(c * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k, c in enumerate(p))
                    try: r = ev(Rr, e)
                    except NotWd: return 'at %s: the integral is %s, the result divides by zero' % (pt(e), s)
                    if r != s: return 'at %s: the integral is %s, the result is %s' % (pt(e), s, r)
            fn = rnd.random() < .4; a = (cxx(lo), cxx(hi), cxx(I), cxx(X))
            if fn: add('%s l; %s h; ct_interval<%s, %s > iv(l, h); typedef decltype(viennamath::integrate(iv, *(%s const *)0, %s())) R; out(%%d, P<R>::p());' % (a[0], a[1], a[0], a[1], a[2], a[3]), safe(c3), 'integrate< %s .. %s , %s , %s >' % (sx(lo), sx(hi), sx(I), sx(X)))
            else: add(ty % ('result_of::integrate<%s, %s, %s, %s >::type' % a), safe(c3), 'integrate< %s .. %s , %s , %s >' % (sx(lo), sx(hi), sx(I), sx(X)))
    if P == 'P21':
        subs = []
        def walk(t):
            subs.append(t)
            for x in t[2:] if t[0] in 'bu' else (): walk(x)
        walk(E); S = rnd.choice(subs + [V(0), V(1)]); Rp = g.tree(1)
        W = sub(E, S, Rp); fn = rnd.random() < .5
        add(ty % ('decltype(viennamath::substitute(*(%s const *)0, *(%s const *)0, *(%s const *)0))' % (cxx(S), cxx(Rp), T) if fn else 'result_of::substitute<%s, %s, %s >::type' % (cxx(S), cxx(Rp), T)),
            safe(lambda Rr: None if Rr == W else 'expected %s, got %s' % (sx(W), sx(Rr))), 'substitute< %s , %s , %s >' % (sx(S), sx(Rp), sx(E)))
        if not hasf(E):
            m = rnd.choice([1, 2, 3, 3, 3]); comp = [rnd.choice([g.const(), g.const(), g.ratio()]) for _ in range(m)]
            if all(abs(q[1] if q[0] == 'c' else q[2][1]) < 10 ** 4 for q in comp):
                def val():
                    return ev(E, {('v', i): ev(c, {}) for i, c in enumerate(comp)})
                def c4(Rr):
                    try: a = val(); b = ev(Rr, {})
                    except (NotWd, KeyError): return None
                    return None if a == b else 'expected %s, got %s' % (a, b)
                def c5(s):
                    try: a = val(); b = float(s)
                    except (NotWd, KeyError, ValueError): return None
                    return None if abs(b - float(a)) <= 1e-9 * max(1, abs(float(a))) else 'expected %s, got %s' % (float(a), s)
                vt = 'ct_vector_%d<%s >' % (m, ', '.join(cxx(c) for c in comp)); de = 'eval< %s > at (%s)' % (sx(E), ', '.join(sx(c) for c in comp))
                if rnd.random() < .4: add(ty % ('result_of::eval<%s, %s >::type' % (T, vt)), safe(c4), de, None)
                else: add(''.join('%s c%d; ' % (cxx(c), i) for i, c in enumerate(comp)) + '%s v(%s); %s e; num(%%d, viennamath::eval(e, v));' % (vt, ', '.join('c%d' % i for i in range(m)), T), c5, de, None)
def hasdiv(t): return t[0] == 'b' and (t[1] == '/' or hasdiv(t[2]) or hasdiv(t[3])) or t[0] == 'u' and hasdiv(t[2])
def hasf(t): return t[0] in 'fu' or t[0] == 'b' and (hasf(t[2]) or hasf(t[3]))
def make(P):
    def run(tier, seed, tmp):
        import concurrent.futures as cf
        n = 2500 if tier == 'quick' else 20000; rnd = random.Random(1000003 * int(seed) + int(P[1:]))
        apps = applications(P, rnd, n); k = 8 if tier == 'quick' else 48
        parts = [list(range(j, len(apps), k)) for j in range(k)]
        tot = dict(cases=0, distinct=0, samples=[], fails=[]); drop = 0; errs = []
        def one(j):
            return runlines([apps[i][0] % q for q, i in enumerate(parts[j])], tmp, 'ct%d' % j)
        with cf.ThreadPoolExecutor(6) as ex:
            for j, (res, d, err) in enumerate(ex.map(one, range(k))):
                drop += d
                if err: errs.append(err)
                for q, i in enumerate(parts[j]):
                    if q not in res: continue
                    tot['cases'] += 1; tot['distinct'] += 1
                    w = apps[i][1](res[q])
                    if len(tot['samples']) < 6: tot['samples'].append(apps[i][2])
                    if w: tot['fails'].append(dict(key=apps[i][2], text='[type applications] %s = %s : %s' % (apps[i][2], res[q][:300], w)))
        if errs: tot['error'] = '; '.join(sorted(set(errs)))[:1500]
        tot['dropped'] = drop
        return tot
    return run
def add(SPECS):
    for P in ('P16', 'P17', 'P18', 'P19', 'P20', 'P21'): SPECS.setdefault(P, []).append(make(P))
