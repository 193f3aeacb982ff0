"""Symbolic instantiation of the extracted rules and the VC prover for them.
Types are terms of the datatype T; integers (long, int, bool, id_type) are
reals without any integrality assumption (an over-approximation); narrowing to
int is the function wrap32, the identity only inside the int range."""
import z3, time
from ctmeta import Bad, CtError, show
_d = z3.Datatype('T')
_d.declare('Const', ('cv', z3.RealSort())); _d.declare('Var', ('vid', z3.RealSort()))
_d.declare('Bin', ('bl', _d), ('bop', _d), ('br', _d)); _d.declare('Un', ('ul', _d), ('uop', _d)); _d.declare('Fun', ('ftag', _d))
for o in ('Plus', 'Minus', 'Mult', 'Div', 'Num'): _d.declare(o)
_d.declare('Vec1', ('v10', _d)); _d.declare('Vec2', ('v20', _d), ('v21', _d)); _d.declare('Vec3', ('v30', _d), ('v31', _d), ('v32', _d))
_d.declare('Opq', ('oid', z3.IntSort()))
T = _d.create(); R = z3.RealSort()
KIND = {'ct_constant': ('Const', 'R'), 'ct_variable': ('Var', 'R'), 'ct_binary_expr': ('Bin', 'TTT'), 'ct_unary_expr': ('Un', 'TT'), 'ct_function_symbol': ('Fun', 'T'),
        'ct_vector_1': ('Vec1', 'T'), 'ct_vector_2': ('Vec2', 'TT'), 'ct_vector_3': ('Vec3', 'TTT')}
CLS = {v[0]: k for k, v in KIND.items()}
OPS = {'op_plus': 'Plus', 'op_minus': 'Minus', 'op_mult': 'Mult', 'op_div': 'Div'}
CON = {T.constructor(i).name(): i for i in range(T.num_constructors())}
def mk(n, *a): return T.constructor(CON[n])(*a) if a else T.constructor(CON[n])()
def acc(n, i, t):
    if is_app(t, n): return t.arg(i)
    return T.accessor(CON[n], i)(t)
def rec(n, t):
    c = ctor(t)
    if c: return z3.BoolVal(c == n)
    return T.recognizer(CON[n])(t)
def ctor(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR: return t.decl().name()
def is_app(t, n): return ctor(t) == n
wrap32 = z3.Function('wrap32', R, R)
WRAP = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'short int': (16, 1), 'unsigned short': (16, 0), 'unsigned': (32, 0), 'unsigned int': (32, 0)}
wrapf = {k: z3.Function('wrap%s%d' % ('us'[s], b), R, R) for k, (b, s) in WRAP.items()}
dvd = z3.Function('divides', R, R, z3.BoolSort())
divmod_ = z3.Function('divmod', R, R, R, R, z3.BoolSort())
def rv(n): return z3.RealVal(n)
def gaps(x): return [z3.Or(x <= -1, x == 0, x == 1, x == 2, x >= 3)]     # integrality, as far as needed
class St:
    __slots__ = ('pc', 'facts', 'taint')
    def __init__(self, pc=(), facts=(), taint=()): self.pc = pc; self.facts = facts; self.taint = taint
    def plus(self, cs=(), fs=(), ta=()):
        cs = [z3.simplify(c) for c in cs]; cs = [c for c in cs if not z3.is_true(c)]
        return St(self.pc + tuple(cs), self.facts + tuple(fs), self.taint + tuple(ta))
def rigid(pat, other, ps, env):
    """does pattern AST `pat` (variables ps) match AST `other` taken as rigid?"""
    if pat[0] == 'name' and pat[1] in ps:
        if pat[1] in env: return env[pat[1]] == other
        env[pat[1]] = other; return True
    if pat[0] == 'num' and other[0] == 'num': return pat[1] == other[1]
    if pat[0] != other[0]: return False
    if pat[0] == 'app': return pat[1] == other[1] and len(pat[2]) == len(other[2]) and all(rigid(a, b, ps, env) for a, b in zip(pat[2], other[2]))
    return pat == other
def moregeneral(a, b):
    """rule a is at least as general as rule b"""
    return all(rigid(x, y, {p[1] for p in a.params}, e) for e in [{}] for x, y in zip(a.args, b.args)) if len(a.args) == len(b.args) else False
class Sym:
    def __init__(self, P, contracts):
        self.P = P; self.con = contracts; self.n = 0; self.used = set(); self.inl = set(); self._feas = {}
        self.recursive = self._scc()
    def _refs(self, a, out):
        if isinstance(a, tuple):
            if a and a[0] == 'app' and isinstance(a[1], str): out.add(a[1])
            for x in a: self._refs(x, out)
        elif isinstance(a, list):
            for x in a: self._refs(x, out)
        return out
    def _scc(self):
        g = {}
        for n, k in self.P.classes.items():
            s = set()
            for r in k.specs + ([k.prim] if k.prim else []):
                for v in r.mem.values(): self._refs(v, s)
            for d in k.defaults.values(): self._refs(d[0], s)
            g[n] = {x for x in s if x in self.P.classes and x not in self.con and x not in KIND and x not in OPS}
        rec_ = set()
        for n in g:
            seen = set(); todo = list(g[n])
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x); todo += g[x]
            if n in seen: rec_.add(n)
        return rec_
    def fresh(self, s, n='u'):
        self.n += 1; return z3.Const('%s!%d' % (n, self.n), s)
    def feas(self, st):
        if any(z3.is_false(c) for c in st.pc): return False
        key = tuple(c.get_id() for c in st.pc)
        if key not in self._feas:
            s = z3.Solver(); s.set('timeout', 500)
            for c in st.pc: s.add(c)
            self._feas[key] = (s.check() != z3.unsat, st.pc)
        return self._feas[key][0]
    # ---- evaluation of an AST under an environment; lists of (state, value)
    def ev(self, a, env, st):
        k = a[0]
        if k == 'num': return [(st, ('I', rv(a[1]), a[2]))]
        if k == 'name': return self.name(a[1], env, st)
        if k == 'app': return self.app(a, env, st)
        if k == 'mem': return self.mem(a, env, st)
        if k == 'cast':
            return [(s, self.conv(v, a[1])) for s, v in self.ev(a[2], env, st)]
        if k == 'un':
            out = []
            for s, v in self.ev(a[2], env, st):
                if v[0] != 'I': raise Bad('operand')
                out.append((s, ('I', -v[1], v[2] if v[2] != 'bool' else 'int') if a[1] == '-' else ('I', z3.If(v[1] == 0, rv(1), rv(0)), 'bool')))
            return out
        if k == 'cond':
            out = []
            for s, c in self.ev(a[1], env, st):
                for cond, br in ((c[1] != 0, a[2]), (c[1] == 0, a[3])):
                    s2 = s.plus([cond])
                    if self.feas(s2): out += self.ev(br, env, s2)
            return out
        if k == 'bin':
            out = []
            for s, x in self.ev(a[2], env, st):
                for s2, y in self.ev(a[3], env, s):
                    out += self.arith(a[1], x, y, s2)
            return out
        raise Bad('expression %s' % k)
    def arith(self, o, x, y, st):
        if x[0] != 'I' or y[0] != 'I': raise Bad('operand')
        if 'uint' in (x[2], y[2]): raise Bad('unsigned arithmetic')
        ty = 'long' if 'long' in (x[2], y[2]) or 'id_type' in (x[2], y[2]) or 'size_t' in (x[2], y[2]) else 'int'
        p, q = x[1], y[1]; b = lambda c: [(st, ('I', z3.If(c, rv(1), rv(0)), 'bool'))]
        if o == '+': return [(st, ('I', p + q, ty))]
        if o == '-': return [(st, ('I', p - q, ty))]
        if o == '*': return [(st, ('I', p * q, ty))]
        if o == '==': return b(p == q)
        if o == '!=': return b(p != q)
        if o == '<': return b(p < q)
        if o == '<=': return b(p <= q)
        if o == '>': return b(p > q)
        if o == '>=': return b(p >= q)
        if o == '&&': return b(z3.And(p != 0, q != 0))
        if o == '||': return b(z3.Or(p != 0, q != 0))
        if o in '/%':
            k, m = self.fresh(R, 'quot'), self.fresh(R, 'rem')
            f = [p == q * k + m, divmod_(p, q, k, m), dvd(q, p) == (m == 0), z3.Implies(z3.And(p >= 0, q >= 1), z3.And(m >= 0, m < q, k >= 0, k <= p)), z3.Implies(z3.And(p <= 0, q >= 1), z3.And(m <= 0, -m < q, k <= 0, k >= p))]
            s = st.plus([q != 0], f + gaps(k) + gaps(m))
            return [(s, ('I', k if o == '/' else m, ty))] if self.feas(s) else []
        raise Bad('operator ' + o)
    def conv(self, v, ty):
        if v[0] != 'I': raise Bad('conversion')
        w = ('I', v[1], ty)
        if ty in ('long', 'id_type', 'size_t', 'unsigned long', 'enum', 'long long'): return ('I', v[1], 'long' if ty != 'enum' else v[2])
        if ty == 'bool': return v if v[2] == 'bool' else ('I', z3.If(v[1] != 0, rv(1), rv(0)), 'bool')
        if ty == 'int': return w if v[2] in ('int', 'bool') else ('I', wrap32(v[1]), 'int')
        if ty in WRAP: return ('I', wrapf[ty](v[1]), 'uint' if ty[:8] == 'unsigned' and WRAP[ty][0] == 32 else 'int')
        raise Bad('type ' + ty)
    def name(self, n, env, st):
        if n in env['b']: return [(st, env['b'][n])]
        r = env.get('rule')
        if r is not None and n in r.mem: return self.member(r, n, env, st)
        if n in ('default_numeric_type', 'double'): return [(st, ('T', mk('Num')))]
        raise Bad('name ' + n)
    def member(self, r, n, env, st):
        m = r.mem[n]
        if m[0] == 'bad': raise Bad('member %s: %s' % (n, m[1]))
        if m[0] == 'type': return self.ev(m[1], env, st)
        return [(s, self.conv(v, m[1])) for s, v in self.ev(m[2], env, st)]
    def args(self, name, asts, env, st):
        outs = [(st, [])]
        for a in asts:
            outs = [(s2, l + [v]) for s, l in outs for s2, v in self.ev(a, env, s)]
        if name in KIND or name in OPS: return outs
        k = self.P.classes.get(name)
        if k is None: raise Bad('template ' + name)
        if k.params is None: raise Bad('template ' + name + ' has no primary')
        n = len(k.params)
        for i in range(n):
            nxt = []
            for s, l in outs:
                if len(l) > i: nxt.append((s, l)); continue
                if i not in k.defaults: raise CtError('too few arguments')
                d, ps = k.defaults[i]
                e = dict(b={ps[j][1]: l[j] for j in range(i)}, rule=None)
                nxt += [(s2, l + [v]) for s2, v in self.ev(d, e, s)]
            outs = nxt
        if any(len(l) != n for s, l in outs): raise CtError('argument count')
        # conversion of non-type arguments to the declared type
        res = []
        for s, l in outs:
            l2 = []
            for v, p in zip(l, k.params):
                if p[0] == 'T':
                    if v[0] != 'T': raise CtError('argument kind')
                    l2.append(v)
                else: l2.append(self.conv(v, p[0]))
            res.append((s, l2))
        return res
    def app(self, a, env, st):
        name = a[1]; out = []
        if name in OPS:
            for s, l in self.args(name, a[2], env, st):
                if len(l) != 1 or not is_app(l[0][1], 'Num') and str(l[0][1]).startswith('Opq'): raise Bad('numeric type')
                out.append((s, ('T', mk(OPS[name]))))
            return out
        if name in KIND:
            c, sg = KIND[name]
            for s, l in self.args(name, a[2], env, st):
                if len(l) != len(sg) or any((v[0] == 'T') != (g == 'T') for v, g in zip(l, sg)): raise CtError('arguments')
                out.append((s, ('T', mk(c, *[v[1] for v in l]))))
            return out
        if name not in self.P.classes: raise Bad('template ' + name)
        return [(s, ('M', name, l)) for s, l in self.args(name, a[2], env, st)]
    def mem(self, a, env, st):
        out = []
        for s, b in self.ev(a[1], env, st):
            if b[0] == 'M': out += self.use(b[1], b[2], a[2], s)
            elif b[0] == 'T': out += self.cmem(b[1], a[2], s)
            else: raise Bad('member of a number')
        return out
    def cmem(self, t, m, st):
        """nested type of an expression/vector type"""
        out = []; c = ctor(t)
        for k in ([c] if c else list(CLS)):
            if k not in CLS: continue
            s = st.plus([rec(k, t)])
            if not self.feas(s): continue
            kl = self.P.classes.get(CLS[k]); r = kl and kl.prim
            if r is None: raise Bad('class ' + CLS[k])
            if m not in r.mem: continue                       # no such member: compile error
            sg = KIND[CLS[k]][1]
            b = {p[1]: (('T', acc(k, i, t)) if g == 'T' else ('I', acc(k, i, t), 'long')) for i, (p, g) in enumerate(zip(kl.params, sg))}
            out += self.member(r, m, dict(b=b, rule=r), s)
        return out
    def sort(self, name, m, srt):
        """a number declared long in some rule is a long for the callers"""
        kl = self.P.classes.get(name)
        if srt == 'int' and kl and any(r.mem[m][0] == 'const' and 'long' in r.mem[m][1] for r in kl.specs + ([kl.prim] if kl.prim else []) if m in r.mem): return 'long'
        return srt
    def use(self, name, args, m, st):
        c = self.con.get(name)
        if c and m in c:
            self.used.add('%s::%s' % (name, m)); srt = self.sort(name, m, c[m][0])
            v, f = self.uf(name, m, args, srt)
            fs = c[m][1](*[x[1] for x in args], v)
            return [(st.plus((), fs), ('T', v) if srt == 'T' else ('I', v, srt))]
        if name in self.recursive or c:
            # no contract: an arbitrary (deterministic) value
            kl = self.P.classes[name]; kinds = {(r.mem[m][0], r.mem[m][1] if r.mem[m][0] == 'const' else '') for r in kl.specs + ([kl.prim] if kl.prim else []) if m in r.mem}
            if not kinds: raise CtError('no member')
            if {k for k, _ in kinds} == {'const'}:
                v, f = self.uf(name, m, args, 'long'); ty = 'long' if 'long' in {t for _, t in kinds} else 'int'
                return [(st.plus((), (), ['%s::%s has no contract' % (name, m)]), ('I', v, ty))]
            if {k for k, _ in kinds} == {'type'}:
                v, f = self.uf(name, m, args, 'T'); return [(st.plus((), (), ['%s::%s has no contract' % (name, m)]), ('T', v))]
            raise Bad('recursive template %s::%s' % (name, m))
        if self.P.classes[name].broken: raise Bad('a rule of %s could not be read' % name)
        self.inl.add(name); out = []
        for s, r, b in self.select(name, args, st):
            e = dict(b=b, rule=r)
            if not self.instantiable(r, e, s): continue
            if m not in r.mem: continue
            try: out += self.member(r, m, e, s)
            except CtError: continue
        return out
    def instantiable(self, r, e, st):
        """False when a nested typedef names a member that cannot exist"""
        for n, v in r.mem.items():
            if v[0] == 'type' and v[1][0] == 'mem' and v[1][1][0] == 'app' and v[1][1][1] in KIND:
                try:
                    if not self.ev(v[1], e, st): return False
                except (Bad, CtError): pass
        return True
    def uf(self, name, m, args, srt):
        f = z3.Function('%s.%s' % (name, m), *([T if a[0] == 'T' else R for a in args] + [T if srt == 'T' else R]))
        if any(a[0] == 'M' for a in args): raise Bad('class type as argument')
        return f(*[a[1] for a in args]), f
    def match(self, pat, v, ps, b):
        """conditions under which the value matches; binds"""
        if pat[0] == 'name' and pat[1] in ps:
            if pat[1] in b:
                w = b[pat[1]]
                if w[0] != v[0]: return None
                return [w[1] == v[1]]
            b[pat[1]] = v; return []
        if v[0] == 'I':
            if pat[0] == 'num': return [v[1] == pat[1]]
            raise Bad('pattern %s' % show(pat))
        if v[0] != 'T': raise Bad('pattern on a class type')
        if pat[0] == 'app' and pat[1] in OPS:
            if len(pat[2]) != 1: return None
            x = self.match(pat[2][0], ('T', mk('Num')), ps, b)
            return None if x is None else [rec(OPS[pat[1]], v[1])] + x
        if pat[0] == 'app' and pat[1] in KIND:
            c, sg = KIND[pat[1]]; cs = [rec(c, v[1])]
            if len(pat[2]) != len(sg): return None
            if z3.is_false(cs[0]): return None
            for i, (p, g) in enumerate(zip(pat[2], sg)):
                x = self.match(p, ('T', acc(c, i, v[1])) if g == 'T' else ('I', acc(c, i, v[1]), 'long'), ps, b)
                if x is None: return None
                cs += x
            return cs
        if pat[0] == 'name' and pat[1] in ('default_numeric_type', 'double'): return [rec('Num', v[1])]
        if pat[0] == 'app' and pat[1].startswith('rt_'): return None        # T ranges over compile-time types only
        raise Bad('pattern %s' % show(pat))
    def select(self, name, args, st):
        k = self.P.classes[name]; ms = []
        for r in k.specs:
            if len(r.args) != len(args): raise Bad('argument count of ' + name)
            b = {}; cs = []; ps = {p[1] for p in r.params}; ok = True
            for p, v in zip(r.args, args):
                x = self.match(p, v, ps, b)
                if x is None: ok = False; break
                cs += x
            if ok: ms.append((r, cs, b))
        out = []
        for r, cs, b in ms:
            c = list(cs)
            for s, cs2, _ in ms:
                if s is not r and not moregeneral(s, r): c.append(z3.Not(z3.And(cs2)) if cs2 else z3.BoolVal(False))
            s2 = st.plus(c)
            if self.feas(s2): out.append((s2, r, b))
        s2 = st.plus([z3.Not(z3.And(cs)) if cs else z3.BoolVal(False) for r, cs, b in ms])
        if k.prim is not None and self.feas(s2):
            out.append((s2, k.prim, {p[1]: v for p, v in zip(k.params, args)}))
        return out
    # ---- a rule as a verification unit: arguments built from its own pattern
    def rule_case(self, name, r):
        k = self.P.classes[name]; b = {}
        for kind, n, _ in r.params:
            b[n] = ('T', z3.Const(n, T)) if kind == 'T' else ('I', z3.Const(n, R), 'long' if kind in ('long', 'id_type') else kind)
        env = dict(b=dict(b), rule=None); st = St()
        if r.args is None: args = [b[p[1]] for p in k.params]
        else:
            args = []
            for a in r.args:
                o = self.ev(a, env, st)
                if len(o) != 1: raise Bad('pattern')
                args.append(o[0][1])
        cs = []
        for s in k.specs:
            if s is r: continue
            if r.args is not None and moregeneral(s, r): continue
            bb = {}; c = []; ok = True
            for p, v in zip(s.args, args):
                x = self.match(p, v, {q[1] for q in s.params}, bb)
                if x is None: ok = False; break
                c += x
            if ok: cs.append(z3.Not(z3.And(c)) if c else z3.BoolVal(False))
        st = st.plus(cs, [g for v in b.values() if v[0] == 'I' for g in gaps(v[1])])
        return args, st, dict(b=b, rule=r)

# ---------------------------------------------------------------- prover
class Prove:
    def __init__(self, unfold, timeout=8000): self.unfold = unfold; self.n = 0; self.t = 0.0; self.by = {'z3': 0}; self.timeout = timeout
    def saturate(self, fs):
        seen = set(); out = []; todo = list(fs); k = 0; apps = {}
        while todo:
            f = todo.pop()
            out.append(f); stack = [f]
            while stack:
                e = stack.pop()
                if e.get_id() in seen: continue
                seen.add(e.get_id()); k += 1
                if k > 30000: return out
                stack += e.children()
                if z3.is_app(e) and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    for g in self.unfold(e, apps): todo.append(z3.simplify(g) if False else g)
        return out
    def check(self, facts, goal):
        t0 = time.time(); g = z3.simplify(goal)
        if z3.is_true(g): self.n += 1; return 'proved', None
        fs = self.saturate(list(facts) + [z3.Not(goal)])
        if str(z3_check(fs[:0] + fs, 400)) == 'unsat': pass
        self.n += 1; r, m = z3_solve(fs, self.timeout)
        if r == 'unknown':
            r2 = purified(fs, self.timeout); self.n += 1
            if r2 == 'unsat': r = 'unsat'
        if r == 'unknown':
            if second(fs, self.timeout) == 'unsat': r = 'unsat'; self.by['cvc5'] = self.by.get('cvc5', 0) + 1
        self.t += time.time() - t0
        return {'unsat': 'proved', 'sat': 'failed'}.get(r, 'unknown'), m
def z3_check(fs, to): return 'unknown'
def z3_solve(fs, to):
    s = z3.Solver(); s.set('timeout', to); s.set('random_seed', 1)
    for f in fs: s.add(f)
    r = str(s.check()); return r, (str(s.model())[:1500] if r == 'sat' else None)
def purified(fs, to):
    """nlsat after replacing uninterpreted terms by variables (sound for unsat)"""
    try:
        g = z3.Goal()
        for f in fs: g.add(f)
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'simplify', 'qfnra-nlsat')
        sub = []; seen = {}
        def pur(e):
            if e.get_id() in seen: return seen[e.get_id()][0]
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and (e.sort() == R or e.sort() == z3.BoolSort()):
                r = z3.Const('pv!%d' % len(seen), e.sort())
            elif z3.is_app(e) and e.num_args():
                cs = e.children()
                if any(c.sort() == T for c in cs): r = z3.Const('pb!%d' % len(seen), e.sort()) if e.sort() != T else e
                else: r = e.decl()(*[pur(c) for c in cs]) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And if e.decl().kind() == z3.Z3_OP_AND else z3.Or)([pur(c) for c in cs])
            else: r = e
            seen[e.get_id()] = (r, e); return r
        s = z3.Solver() if False else t.solver(); s.set('timeout', to)
        for f in fs: s.add(pur(f))
        return str(s.check())
    except z3.Z3Exception: return 'unknown'
def second(fs, to):
    try:
        import cvc5
        s = z3.Solver()
        for f in fs: s.add(f)
        tm = cvc5.TermManager(); slv = cvc5.Solver(tm); slv.setOption('tlimit-per', str(to))
        p = cvc5.InputParser(slv); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + s.to_smt2(), 'q'); sm = p.getSymbolManager(); res = ''
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            o = str(c.invoke(slv, sm)).strip()
            if o in ('sat', 'unsat', 'unknown'): res = o
        return res
    except Exception: return 'unknown'
