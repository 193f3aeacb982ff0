"""Compile-time properties: contracts on the metafunctions of namespace result_of,
discharged rule by rule (one unit per specialisation and function template)."""
import z3, time, traceback, os, shutil
from ctmeta import extract, Bad, CtError, show
from ctsym import *
import build
HEADERS = ['viennamath/expression.hpp'] + ['viennamath/manipulation/%s.hpp' % x for x in ('simplify', 'diff', 'expand', 'coefficient', 'drop_dependent_terms', 'integrate', 'substitute', 'eval')]
Env = z3.DeclareSort('Env'); ENV = z3.Const('ENV', Env); B = z3.BoolSort()
fv = z3.Function('fv', Env, R, R); ff = z3.Function('ff', Env, T, R)
ev = z3.Function('ev', Env, T, R); wd = z3.Function('wd', Env, T, B)
uapp = z3.Function('uapp', T, R, R); bapp = z3.Function('bapp', T, R, R, R)
fdiv = z3.Function('fdiv', R, R, R)
dv = z3.Function('dv', T, T, R); deg = z3.Function('deg', T, T, R); pl = z3.Function('pl', T, T, B)
csub = z3.Function('csub', T, T, T, T); IS = z3.Function('IS', T, T, T, T, R)
set0 = z3.Function('set0', T, Env, Env); set1 = z3.Function('set1', T, Env, Env); at = z3.Function('at', T, Env, Env)
pw = z3.Function('pw', R, R, R)
OPN = ('Plus', 'Minus', 'Mult', 'Div')
Imp, And, Or, Not, If = z3.Implies, z3.And, z3.Or, z3.Not, z3.If
def isop(o, n): return rec(n, o)
def atom(t): return Or(rec('Var', t), rec('Fun', t))
def nm(e): return e.decl().name()
# lemmas (each proved by induction in lemma_units) may be switched off for their own proof
LEM = {'indep': True, 'plwd': True, 'dpl': True, 'sub': True, 'degint': True}
def unfold(e, apps):
    n = nm(e); a = e.children(); out = []
    if n in ('fv', 'ff'):
        env, i = a; en = nm(env)
        if en in ('set0', 'set1'):
            F, e2 = env.children(); c = rv(0 if en == 'set0' else 1)
            me = mk('Var', i) if n == 'fv' else mk('Fun', i)
            out.append(e == If(F == me, c, (fv if n == 'fv' else ff)(e2, i)))
        elif en == 'at' and n == 'fv':
            v, e2 = env.children(); c = ctor(v)
            if c in (None, 'Const'): out.append(Imp(And(rec('Const', v), i == 0), e == acc('Const', 0, v)))
            for vc, n_ in (('Vec1', 1), ('Vec2', 2), ('Vec3', 3)):
                if c in (None, vc):
                    for k in range(n_): out.append(Imp(And(rec(vc, v), i == k), e == ev(e2, acc(vc, k, v))))
        elif en == 'at': out.append(e == ff(env.arg(1), i))
    elif n in ('ev', 'wd'):
        env, t = a; c = ctor(t)
        if n == 'ev':
            if c == 'Const': out.append(e == t.arg(0))
            elif c == 'Var': out.append(e == fv(env, t.arg(0)))
            elif c == 'Fun': out.append(e == ff(env, t.arg(0)))
            elif c == 'Un': out.append(e == uapp(t.arg(1), ev(env, t.arg(0))))
            elif c == 'Bin':
                l, o, r = t.children(); x, y = ev(env, l), ev(env, r)
                sem = {'Plus': e == x + y, 'Minus': e == x - y, 'Mult': e == x * y, 'Div': And(e == fdiv(x, y), Imp(y != 0, e * y == x))}
                if ctor(o): out.append(sem.get(ctor(o), e == bapp(o, x, y)))
                else: out += [Imp(isop(o, k), f) for k, f in sem.items()] + [Or([isop(o, k) for k in OPN] + [e == bapp(o, x, y)])]
        else:
            if c in ('Const', 'Var', 'Fun'): out.append(e)
            elif c == 'Un': out.append(e == wd(env, t.arg(0)))
            elif c == 'Bin':
                l, o, r = t.children()
                out.append(e == And(wd(env, l), wd(env, r), Imp(isop(o, 'Div'), ev(env, r) != 0)))
        if nm(env) in ('set0', 'set1'):
            F, e2 = env.children()
            if LEM['indep']: out.append(Imp(deg(F, t) == 0, e == (ev if n == 'ev' else wd)(e2, t)))
            if n == 'wd' and LEM['plwd']: out.append(Imp(pl(F, t), e == wd(e2, t)))
        if LEM['sub'] and env.eq(ENV) and z3.is_app(t) and t.decl().name() == 'csub':
            S, Rp, t2 = t.children()
            if is_app(Rp, 'Const'):
                for k, f in ((0, set0), (1, set1)):
                    out.append(Imp(And(Rp.arg(0) == k, atom(S)), e == (ev if n == 'ev' else wd)(f(S, env), t2)))
    elif n == 'deg':
        F, t = a; c = ctor(t)
        if c in ('Const', 'Var', 'Fun', 'Num') or c in OPN: out.append(e == If(F == t, rv(1), rv(0)))
        elif c == 'Un': out.append(e == If(F == t, rv(1), If(deg(F, t.arg(0)) == 0, rv(0), rv(2))))
        elif c == 'Bin':
            l, o, r = t.children(); x, y = deg(F, l), deg(F, r)
            out.append(e == If(F == t, rv(1), If(isop(o, 'Mult'), x + y, If(isop(o, 'Div'), If(y == 0, x, rv(2)), If(Or(isop(o, 'Plus'), isop(o, 'Minus')), If(x >= y, x, y), If(And(x == 0, y == 0), rv(0), rv(2)))))))
        if LEM['degint']: out.append(Or(e == 0, e == 1, e >= 2))
        if LEM['dpl']: out.append(Imp(And(atom(F), e <= 1), pl(F, t)))
    elif n == 'pl':
        F, t = a; c = ctor(t)
        if c in ('Const', 'Var', 'Fun'): out.append(e)
        elif c == 'Un': out.append(e == (deg(F, t.arg(0)) == 0))
        elif c == 'Bin':
            l, o, r = t.children()
            out.append(e == And(Or([isop(o, k) for k in OPN]), pl(F, l), pl(F, r), Imp(isop(o, 'Div'), deg(F, r) == 0)))
    elif n == 'dv':
        t, v = a; c = ctor(t)
        if c == 'Const': out.append(e == 0)
        elif c == 'Var': out.append(e == If(t == v, rv(1), rv(0)))
        elif c == 'Bin':
            l, o, r = t.children(); x, y, dx, dy = ev(ENV, l), ev(ENV, r), dv(l, v), dv(r, v)
            sem = {'Plus': e == dx + dy, 'Minus': e == dx - dy, 'Mult': e == dx * y + x * dy, 'Div': Imp(y != 0, e * (y * y) == dx * y - x * dy)}
            out += [sem[ctor(o)]] if ctor(o) in sem else [Imp(isop(o, k), f) for k, f in sem.items()]
    elif n == 'csub':
        S, Rp, t = a; c = ctor(t)
        out += [ev(ENV, u) == ev(ENV, u) for u in (Rp, e)] + [wd(ENV, u) == wd(ENV, u) for u in (Rp, e)]
        q = None
        if c == 'Bin': q = mk('Bin', csub(S, Rp, t.arg(0)), t.arg(1), csub(S, Rp, t.arg(2)))
        elif c == 'Un': q = mk('Un', csub(S, Rp, t.arg(0)), t.arg(1))
        if q is not None: out += [e == If(t == S, Rp, q), ev(ENV, q) == ev(ENV, q), wd(ENV, q) == wd(ENV, q)]
        elif c: out.append(e == If(t == S, Rp, t))
    elif n == 'IS':
        X, lo, hi, t = a; c = ctor(t); L_, H = ev(ENV, lo), ev(ENV, hi); g = And(pl(X, t), wd(ENV, t))
        if c == 'Const': out.append(e == t.arg(0) * (H - L_))
        elif c in ('Var', 'Fun'): out.append(If(t == X, 2 * e == H * H - L_ * L_, e == ev(ENV, t) * (H - L_)))
        elif c == 'Bin':
            l, o, r = t.children(); x, y = IS(X, lo, hi, l), IS(X, lo, hi, r)
            out += [Imp(And(g, isop(o, 'Plus')), e == x + y), Imp(And(g, isop(o, 'Minus')), e == x - y), Imp(And(g, isop(o, 'Div')), e * ev(ENV, r) == x)]
    elif n == 'pw':
        x, k = a
        out += [Imp(k == 0, e == 1), Imp(k == 1, e == x), Imp(k == 2, e == x * x)]
        o = apps.setdefault(('pw', x.get_id()), [])
        for p in list(o) + [e]:
            for q in list(o) + [e]:
                for s in list(o) + [e]:
                    if e not in (p, q, s) and not any(z.eq(e) for z in (p, q, s)): continue
                    if len(o) > 4: continue
                    out.append(Imp(And(p.arg(1) >= 0, q.arg(1) >= 0, s.arg(1) == p.arg(1) + q.arg(1)), s == p * q))
        for p in o:
            for lo, hi in ((p, e), (e, p)): out += [Imp(And(lo.arg(1) >= 0, hi.arg(1) == lo.arg(1) + j), hi == lo * f) for j, f in ((1, x), (2, x * x))]
        o.append(e)
    elif n == 'divides':
        g, x = a; out += [Imp(And(g == x, g != 0), e), Imp(And(x == 0, g != 0), e)]
        apps.setdefault('dv', []).append(e)
        for d in apps.get('dm', []): out += dmf(e, d)
    elif n == 'divmod':
        apps.setdefault('dm', []).append(e)
        for d in apps.get('dv', []): out += dmf(d, e)
    elif n == 'wrap32':
        out.append(Imp(And(a[0] >= -2147483648, a[0] < 2147483648), e == a[0]))
    elif n[:5] in ('wrapu', 'wraps'):
        b = int(n[5:]); lo, hi = (0, 2 ** b) if n[4] == 'u' else (-2 ** (b - 1), 2 ** (b - 1))
        out += [Imp(And(a[0] >= lo, a[0] < hi), e == a[0]), e >= lo, e < hi, Imp(And(a[0] >= hi, a[0] < hi + 2 ** b), e == a[0] - 2 ** b)]
    return out
def dmf(d, m):
    # g|q and g|r imply g|q*k+r
    g = d.arg(0); p, q, k, r = m.children()
    return [Imp(And(dvd(g, q), dvd(g, r)), dvd(g, p))] if d.arg(1).eq(p) else []
# ---------------------------------------------------------------- contracts
class Cur: envs = [ENV]; X = None; LO = None; HI = None; props = ()
def evk(E, Rr, envs=None): return [And([Imp(wd(e, E), And(wd(e, Rr), ev(e, Rr) == ev(e, E))) for e in (envs or Cur.envs)])]
def kept(E, Rr, dg=False):
    """what the callers' contracts need besides the value"""
    out = list(evk(E, Rr))
    X = Cur.X
    if X is not None:
        out.append(Imp(atom(X), And(Imp(deg(X, E) == 0, deg(X, Rr) == 0), Imp(pl(X, E), pl(X, Rr)))))
        if dg: out.append(Imp(And(atom(X), deg(X, E) <= 1), deg(X, Rr) <= deg(X, E)))
        if Cur.LO is not None: out.append(Imp(And(rec('Var', X), wd(ENV, E), pl(X, E)), IS(X, Cur.LO, Cur.HI, Rr) == IS(X, Cur.LO, Cur.HI, E)))
    return out
def c_diff(E, V, Rr): return [Imp(And(rec('Var', V), wd(ENV, E)), And(wd(ENV, Rr), ev(ENV, Rr) == dv(E, V)))]
def prod(a, b): return mk('Bin', a, mk('Mult'), b)
def c_gcd(a, b, g): return [And(dvd(g, a), dvd(g, b), g != 0)]
def c_hasf(F, E, n): return [Imp(And(atom(F), deg(F, E) <= 1), n == deg(F, E))]
def c_coefi(F, E, Rr):
    e0 = set0(F, ENV)
    return [Imp(And(atom(F), wd(ENV, E), deg(F, E) <= 1), And(wd(ENV, Rr), ev(ENV, Rr) * ev(ENV, F) + ev(e0, E) == ev(ENV, E), deg(F, Rr) == 0, Imp(deg(F, E) == 0, ev(ENV, Rr) == 0)))]
def c_drop(F, E, Rr):
    e0 = set0(F, ENV)
    return [Imp(And(atom(F), wd(e0, E)), And(wd(ENV, Rr), ev(ENV, Rr) == ev(e0, E)))]
def c_subst(S, Rp, E, Rr): return [Rr == csub(S, Rp, E)]
def vwd(V):
    c = ctor(V); cs = []
    for vc, n in (('Vec1', 1), ('Vec2', 2), ('Vec3', 3)):
        if c in (None, vc): cs.append(Imp(rec(vc, V), And([wd(ENV, acc(vc, k, V)) for k in range(n)])))
    return And(cs)
def c_eval(E, V, flag, Rr): return [Imp(And(wd(at(V, ENV), E), vwd(V)), And(wd(ENV, Rr), ev(ENV, Rr) == ev(at(V, ENV), E)))]
def c_pdeg(X, E, n):
    f = [Imp(And(rec('Var', X), pl(X, E), wd(ENV, E)), And(n >= 0, ev(ENV, E) == ev(set1(X, ENV), E) * pw(ev(ENV, X), n), Imp(deg(X, E) == 0, n == 0)))]
    return f
def c_pdeg_use(X, E, n):
    f = c_pdeg(X, E, n)
    if Cur.LO is not None:      # power rule for c*x^n
        f.append(Imp(And(rec('Var', X), pl(X, E), wd(ENV, E)), (n + 1) * IS(X, Cur.LO, Cur.HI, E) == ev(set1(X, ENV), E) * (pw(ev(ENV, Cur.HI), n + 1) - pw(ev(ENV, Cur.LO), n + 1))))
    return f
def c_pow(t, e, Rr): return [Imp(And(e >= 0, wd(ENV, t)), And(wd(ENV, Rr), ev(ENV, Rr) == pw(ev(ENV, t), e)))]
def c_mono(t, e, Rr): return [Imp(And(e >= 0, wd(ENV, t)), And(wd(ENV, Rr), (e + 1) * ev(ENV, Rr) == pw(ev(ENV, t), e + 1)))]
def c_int(lo, hi, E, X, Rr): return [Imp(And(rec('Var', X), pl(X, E), wd(ENV, E), wd(ENV, lo), wd(ENV, hi)), And(wd(ENV, Rr), ev(ENV, Rr) == IS(X, lo, hi, E)))]
def c_bin(op): return lambda l, r, a, b, Rr: [Imp(And(a == 1, b == 1), And(evk(mk('Bin', l, mk(op), r), Rr)))]
# name -> (member, sort, contract as used by callers, contract as proved, argument to split, label, factor/point arguments)
DEF = {
 'simplify_impl': ('type', 'T', kept, None, 0, 'the rewritten expression has the same value'),
 'simplify': ('type', 'T', lambda E, f, r: kept(E, r), None, None, 'the simplified expression has the same value'),
 'gcd': ('value', 'long', c_gcd, None, None, 'the result is a common divisor'),
 'diff': ('result_type', 'T', c_diff, None, None, 'the result is the derivative'),
 'expand': ('type', 'T', lambda E, r: kept(E, r, True), None, None, 'the expanded expression has the same value'),
 'expand_with_factor': ('type', 'T', lambda E, F, f, r: kept(prod(E, F), r, True), None, None, 'expression times factor'),
 'expand_product': ('type', 'T', lambda L_, R_, a, b, r: kept(prod(L_, R_), r, True), None, None, 'the product has the same value'),
 'has_factor': ('value', 'int', c_hasf, None, 1, 'counts the factor'),
 'coefficient_impl': ('type', 'T', c_coefi, None, 1, 'coefficient times factor plus the rest is the expression'),
 'coefficient': ('type', 'T', c_coefi, None, None, 'coefficient times factor plus the rest is the expression'),
 'drop_dependent_terms': ('type', 'T', c_drop, None, None, 'what remains is the expression with the factor set to zero'),
 'substitute': ('type', 'T', c_subst, None, None, 'exactly the matching sub-expressions are replaced'),
 'eval': ('type', 'T', c_eval, None, None, 'the value at the compile-time point'),
 'polynomial_degree': ('value', 'int', c_pdeg_use, c_pdeg, 1, 'the expression is a constant times this power of the variable'),
 'pow': ('type', 'T', c_pow, None, None, 'the power'),
 'integrate_monomial': ('type', 'T', c_mono, None, None, 'antiderivative of the power'),
 'integrate_impl': ('type', 'T', c_int, None, None, 'the exact definite integral'),
 'integrate': ('type', 'T', c_int, None, None, 'the exact definite integral'),
 'add': ('type', 'T', c_bin('Plus'), None, None, 'denotes the sum'), 'subtract': ('type', 'T', c_bin('Minus'), None, None, 'denotes the difference'),
 'mult': ('type', 'T', c_bin('Mult'), None, None, 'denotes the product'), 'div': ('type', 'T', c_bin('Div'), None, None, 'denotes the quotient'),
}
NARG = {'simplify_impl': 1, 'simplify': 2, 'gcd': 2, 'diff': 2, 'expand': 1, 'expand_with_factor': 3, 'expand_product': 4, 'has_factor': 2, 'coefficient_impl': 2, 'coefficient': 2, 'drop_dependent_terms': 2,
        'substitute': 3, 'eval': 3, 'polynomial_degree': 2, 'pow': 2, 'integrate_monomial': 2, 'integrate_impl': 4, 'integrate': 4, 'add': 4, 'subtract': 4, 'mult': 4, 'div': 4}
CHAIN = {'P16': ['simplify_impl', 'simplify', 'gcd'], 'P17': ['diff'], 'P18': ['expand', 'expand_with_factor', 'expand_product'],
         'P19': ['has_factor', 'coefficient_impl', 'coefficient', 'drop_dependent_terms', 'expand', 'expand_with_factor', 'expand_product', 'simplify_impl', 'simplify', 'substitute', 'gcd'],
         'P20': ['polynomial_degree', 'pow', 'integrate_monomial', 'integrate_impl', 'integrate', 'expand', 'expand_with_factor', 'expand_product', 'simplify_impl', 'simplify', 'substitute', 'gcd'],
         'P21': ['substitute', 'eval', 'simplify_impl', 'simplify', 'gcd'], 'P03': ['add', 'subtract', 'mult', 'div'], 'P26': []}
OWNER = {'simplify_impl': 'P16', 'simplify': 'P16', 'gcd': 'P16', 'diff': 'P17', 'expand': 'P18', 'expand_with_factor': 'P18', 'expand_product': 'P18', 'has_factor': 'P19', 'coefficient_impl': 'P19', 'coefficient': 'P19',
         'drop_dependent_terms': 'P19', 'substitute': 'P21', 'eval': 'P21', 'polynomial_degree': 'P20', 'pow': 'P20', 'integrate_monomial': 'P20', 'integrate_impl': 'P20', 'integrate': 'P20', 'add': 'P03', 'subtract': 'P03', 'mult': 'P03', 'div': 'P03'}
# function templates: name -> (number of flattened arguments, contract)
FUN = {'simplify': ('P16', 1, lambda E, r: kept(E, r)), 'diff': ('P17', 2, c_diff), 'expand': ('P18', 1, lambda E, r: kept(E, r)), 'coefficient': ('P19', 2, c_coefi),
       'drop_dependent_terms': ('P19', 2, c_drop), 'substitute': ('P21', 3, c_subst), 'integrate': ('P20', 4, c_int), 'eval': ('P21', 2, lambda E, V, r: c_eval(E, V, rv(1), r))}
FLAT = {'ct_interval': 2}
def setcur(prop, name, args):
    """the factor, the limits and the environments a unit talks about"""
    Cur.X = Cur.LO = Cur.HI = None; Cur.envs = [ENV]
    if prop == 'P19':
        Cur.X = args[0] if name in ('has_factor', 'coefficient_impl', 'coefficient', 'drop_dependent_terms') else z3.Const('XF', T)
        Cur.envs = [ENV, set0(Cur.X, ENV)] if name in ('coefficient', 'drop_dependent_terms') else [ENV]
    if prop == 'P20':
        if name in ('integrate_impl', 'integrate'): Cur.LO, Cur.HI, Cur.X = args[0], args[1], args[3]
        elif name == 'polynomial_degree': Cur.X = args[0]
        else: Cur.X = z3.Const('XF', T)
class Obl:
    def __init__(self, props, name, res, where, detail): self.props = props; self.name = name; self.res = res; self.where = where; self.detail = detail
class Result:
    def __init__(self, n): self.name = n; self.obls = []; self.err = None; self.time = 0; self.funcs = set(); self.contracted = set(); self.modelled = set(); self.paths = 0; self.ret = 0
SPLITS = [('Const', (R,)), ('Var', (R,)), ('Bin', (T, T, T)), ('Un', (T, T)), ('Fun', (T,))]
def expandargs(args, i, heads):
    """case split an opaque argument over its constructors"""
    if i is None or ctor(args[i][1]): return [([], args)]
    out = []
    for h, ss in heads:
        t = mk(h, *[z3.Const('%s_%s%d' % (args[i][1], h, k), s) for k, s in enumerate(ss)])
        out.append(([args[i][1] == t], [(a[0], t) if j == i else a for j, a in enumerate(args)]))
    return out
class Sess:
    m = None
    def __init__(self, prop): self.prop = prop; self.p = Prove(unfold); self.P = None; self.err = None
    def load(self):
        if self.P is None:
            self.P = extract(build.REPO, build.CLANG, HEADERS)
            con = {n: {DEF[n][0]: (DEF[n][1], DEF[n][2])} for n in DEF if n in self.P.classes and self.P.classes[n].params and len(self.P.classes[n].params) == NARG[n]}
            # a metafunction that lost its shape is inlined
            self.con = con
    def run(self, name, body, hints=None):
        r = Result(name); t0 = time.time(); self.ends = []
        try: body(self, r)
        except Bad as e: r.err = 'unsupported: %s' % e
        except CtError as e: r.err = 'unsupported: %s' % e
        except Exception as e: r.err = 'internal: %s %s' % (e, ''.join(traceback.format_tb(e.__traceback__)[-3:]))
        if r.obls and all(o.res == 'proved' for o in r.obls) and self.ends:
            r.reach = 'vacuous'
            for fs in reversed(self.ends[-20:]):
                c = self.p.check(fs, z3.BoolVal(False))[0]
                if c != 'proved': r.reach = 'sat' if c == 'failed' else 'unknown'; break
        r.time = time.time() - t0; return r
    def oblige(self, r, props, label, st, goal, where):
        self.ends.append(list(st.pc) + list(st.facts))
        g = z3.simplify(goal) if not isinstance(goal, list) else z3.simplify(And(goal))
        res, m = self.p.check(list(st.pc) + list(st.facts), g)
        if res == 'failed' and st.taint: res = 'unknown'; m = 'depends on ' + '; '.join(st.taint)
        r.obls.append(Obl(props, label, res, where, '' if res == 'proved' else 'path: %s\nmodel (type-level, relaxed integers): %s' % ([str(c)[:120] for c in st.pc][:8], m)))
def rule_body(prop, name, r):
    mem, _, use, prove, split, label = DEF[name]
    post = prove or use
    def body(S, res):
        x = Sym(S.P, S.con); srt = x.sort(name, mem, DEF[name][1])
        if S.P.classes[name].broken: raise Bad('a rule of %s could not be read' % name)
        args, st, env = x.rule_case(name, r)
        if not x.feas(st): return
        if not x.instantiable(r, env, st): return
        if name in ('add', 'subtract', 'mult', 'div') and args[2][0] == 'I' and args[3][0] == 'I' and not x.feas(st.plus([args[2][1] == 1, args[3][1] == 1])): return     # outside the precondition
        if mem not in r.mem: return          # no result: not an accepted instantiation
        cases = expandargs(args, split, SPLITS)
        if name in ('has_factor', 'coefficient_impl', 'coefficient', 'drop_dependent_terms'):
            cases = [(c + c2, a2) for c, a in cases for c2, a2 in expandargs(a, 0, [('Var', (R,)), ('Fun', (T,))])]
        if name in ('polynomial_degree',): cases = [(c + c2, a2) for c, a in cases for c2, a2 in expandargs(a, 0, [('Var', (R,))])]
        if name in ('integrate_impl', 'integrate'): cases = [(c + c2, a2) for c, a in cases for c2, a2 in expandargs(a, 3, [('Var', (R,))])]
        for conds, a in cases:
            # substitute the split argument everywhere: re-run with bindings of the pattern variables
            sub = [(c.arg(0), c.arg(1)) for c in conds]
            S2 = lambda f: z3.substitute(f, *sub) if sub else f
            st2 = St(tuple(z3.simplify(S2(c)) for c in st.pc), tuple(S2(f) for f in st.facts), st.taint)
            if not x.feas(st2): continue
            env2 = dict(b={k: (v[0], z3.simplify(S2(v[1]))) + tuple(v[2:]) for k, v in env['b'].items()}, rule=r)
            a2 = [(v[0], z3.simplify(S2(v[1]))) + tuple(v[2:]) for v in args]
            setcur(prop, name, [v[1] for v in a2])
            outs = x.member(r, mem, env2, st2)
            for s, v in outs:
                res.paths += 1
                if v[0] == 'M': raise Bad('result is a class template')
                if (v[0] == 'T') != (srt == 'T'): raise Bad('result kind')
                v = x.conv(v, srt) if v[0] == 'I' else v
                res.ret += 1
                for k, g in enumerate(post(*[q[1] for q in a2], v[1])):
                    own = OWNER[name]
                    lab = label if k == 0 else 'contains no variable, denominator or degree that was not there' if k < 3 else 'same integral'
                    if k >= 3: continue      # consequence of the value for every x, see DESIGN
                    S.oblige(res, (own, prop) if own == prop or prop in ('P19', 'P20') else (own,), lab, s, g, r.label())
        res.funcs |= x.inl; res.contracted |= x.used
    return body
def fun_body(prop, f, idx):
    own, na, post = FUN[f['name']]
    def body(S, res):
        x = Sym(S.P, S.con); b = {}
        for kind, n, _ in f['params']: b[n] = ('T', z3.Const(n, T)) if kind == 'T' else ('I', z3.Const(n, R), 'long')
        env = dict(b=b, rule=None); flat = []
        for a in f['args']: flat += a[2] if a[0] == 'app' and a[1] in FLAT else [a]
        if len(flat) != na: raise Bad('parameters')
        args = []
        for a in flat:
            o = x.ev(a, env, St())
            args.append(o[0][1])
        setcur(prop, f['name'], [a[1] for a in args])
        by = f['body']
        if by is None or by[0] != 'call': raise Bad('body')
        X = by[1]
        if f['name'] == 'eval':
            if X[0] != 'call': raise Bad('body')
            outs = x.ev(X[1], env, St())
        else:
            outs = x.ev(f['ret'], env, St())
            if X != f['ret']:
                o2 = x.ev(X, env, St())
                if len(o2) != len(outs) or any(not z3.is_true(z3.simplify(p[1][1] == q[1][1])) for p, q in zip(outs, o2)): raise Bad('returned object')
        for s, v in outs:
            res.paths += 1; res.ret += 1
            for k, g in enumerate(post(*[a[1] for a in args], v[1])):
                if k: break
                S.oblige(res, (own, prop) if own == prop else (own,), 'the function returns what its arguments, in this order, call for', s, g, 'viennamath::%s (function template)' % f['name'])
        res.contracted |= x.used; res.funcs |= x.inl
    return body
SIDES = {'make_equation': 'ct_equation', 'make_interval': 'ct_interval'}
def sides_body(f):
    """an equation or interval of two compile-time operands: its type has the two operands' types as its sides, in order"""
    def body(S, res):
        x = Sym(S.P, S.con); b = {}
        for kind, n, _ in f['params']: b[n] = ('T', z3.Const(n, T)) if kind == 'T' else ('I', z3.Const(n, R), 'long')
        env = dict(b=b, rule=None)
        if f['ret'][0] != 'app' or len(f['ret'][2]) != 2 or len(f['args']) != 2: raise Bad('result type')
        by = f['body']
        if by is None or by[0] != 'call' or by[1] != f['ret']: raise Bad('body')
        for k in range(2):
            for (s, a) in x.ev(f['args'][k], env, St()):
                for (s2, r) in x.ev(f['ret'][2][k], env, s):
                    res.paths += 1; res.ret += 1
                    S.oblige(res, ('P26',), 'the %s is the %s operand' % (('left hand side', 'right hand side')[k] if f['ret'][1] == 'ct_equation' else ('lower limit', 'upper limit')[k], ('first', 'second')[k]), s2,
                             a[1] == r[1], 'viennamath::%s(%s)' % (f['name'], ', '.join(show(q) for q in f['args'])))
        S.oblige(res, ('P26',), 'an equation makes an equation, an interval an interval', St(), z3.BoolVal(f['ret'][1] == SIDES[f['name']]), 'viennamath::%s' % f['name'])
    return body
# ---------------------------------------------------------------- lemmas by induction on the expression
def lemma_body(which, prop):
    def body(S, res):
        F = None
        for fh, fs in (('Var', (R,)), ('Fun', (T,))):
            F = mk(fh, *[z3.Const('f%d' % k, s) for k, s in enumerate(fs)])
            for h, ss in SPLITS:
                t = mk(h, *[z3.Const('t%d' % k, s) for k, s in enumerate(ss)])
                kids = [t.arg(k) for k, s in enumerate(ss) if s == T]
                if h == 'Fun': kids = []
                def P(u):
                    if which == 'indep': return And([Imp(deg(F, u) == 0, And(ev(f(F, ENV), u) == ev(ENV, u), wd(f(F, ENV), u) == wd(ENV, u))) for f in (set0, set1)])
                    if which == 'plwd': return And([Imp(pl(F, u), wd(f(F, ENV), u) == wd(ENV, u)) for f in (set0, set1)])
                    if which == 'dpl': return Imp(deg(F, u) <= 1, pl(F, u))
                    if which == 'degint': return Or(deg(F, u) == 0, deg(F, u) == 1, deg(F, u) >= 2)
                    if which == 'sub': return And([And(ev(ENV, csub(F, mk('Const', rv(k)), u)) == ev(f(F, ENV), u), wd(ENV, csub(F, mk('Const', rv(k)), u)) == wd(f(F, ENV), u)) for k, f in ((0, set0), (1, set1))])
                wf = []
                if h == 'Bin': wf = [Or([isop(t.arg(1), o) for o in OPN])]; kids = [t.arg(0), t.arg(2)]
                if h == 'Un': kids = [t.arg(0)]
                order = ['degint', 'indep', 'dpl', 'plwd', 'sub']
                for l in order: LEM[l] = order.index(l) < order.index(which)
                try: S.oblige(res, (prop,), 'induction step of lemma %s for %s' % (which, h), St(tuple(wf), tuple(P(k) for k in kids)), P(t), 'specification lemma')
                finally:
                    for l in order: LEM[l] = True
                res.paths += 1; res.ret += 1
    return body
def decomp_body(prop):
    def body(S, res):
        F = z3.Const('F', T); E = z3.Const('E', T); c = z3.Const('C', T); d = z3.Const('D', T); f = c_coefi(F, E, c) + c_drop(F, E, d)
        S.oblige(res, (prop,), 'dropped part plus coefficient times factor is the expression', St((), tuple(f)),
                 Imp(And(atom(F), wd(ENV, E), deg(F, E) <= 1), ev(ENV, d) + ev(ENV, c) * ev(ENV, F) == ev(ENV, E)), 'lemma over the two contracts'); res.ret += 1
    return body
def gen(prop):
    def g(S):
        S.load(); out = []
        for n in CHAIN[prop]:
            k = S.P.classes.get(n)
            if k is None or n not in S.con: continue
            rs = ([k.prim] if k.prim else []) + k.specs
            for r in rs:
                if n in ('add', 'subtract', 'mult', 'div') and (DEF[n][0] not in r.mem or r.args and 'rt_' in str(r.args)): continue
                out.append(('%s rule %d' % (n, r.n), '%s' % r.label(), rule_body(prop, n, r), {}))
        for f in S.P.funcs if prop == 'P26' else ():
            if f['name'] in SIDES and f['ns'] == ('viennamath',) and f['ret'][0] == 'app' and f['ret'][1] in SIDES.values():
                out.append(('function %s(%s)' % (f['name'], ', '.join(show(q) for q in f['args'])), 'viennamath::' + f['name'], sides_body(f), {}))
        for f in S.P.funcs:
            if f['name'] in FUN and FUN[f['name']][0] == prop and f['ns'] == ('viennamath',):
                flat = sum((FLAT.get(a[1], 1) if a[0] == 'app' else 1 for a in f['args']), 0)
                if any(a[0] == 'app' and a[1] != 'ct_interval' or a[0] == 'name' and a[1] not in {p[1] for p in f['params']} for a in f['args']) or flat != FUN[f['name']][1]: continue
                if f['ret'][0] != 'mem': continue
                out.append(('function %s' % f['name'], 'viennamath::' + f['name'], fun_body(prop, f, 0), {}))
        if prop in ('P19', 'P20'):
            for w in ('degint', 'indep', 'dpl', 'plwd', 'sub'): out.append(('lemma ' + w, '', lemma_body(w, prop), {}))
        if prop == 'P19': out.append(('lemma decomposition', '', decomp_body(prop), {}))
        return out
    return g
class CtTU:
    head = None; dropped = (); error = None; lines = ()
    def __init__(self, prop): self.name = 'metafunctions'; self.gen = gen(prop); self.sess = Sess(prop)
def tus(prop, tier):
    return [CtTU(prop)] if prop in CHAIN else []
