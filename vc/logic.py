"""The specification logic: datatypes of expression trees, the specification
functions over them (uninterpreted symbols with one definitional equation per
tree constructor) and the prover.

A query is decided quantifier-free: every application of a specification
function to a constructor term is given its definitional equation, recursively
(`saturate`), universally quantified facts are instantiated at every index term
of their trigger that occurs in the query, and z3 decides the result.
"""
import z3, time
from fractions import Fraction

BV64 = z3.BitVecSort(64)
BV32 = z3.BitVecSort(32)
R = z3.RealSort()
B = z3.BoolSort()
I = z3.IntSort()
VecS = z3.DeclareSort('VecS')        # component list of a vector expression
EnvS = z3.DeclareSort('EnvS')        # evaluation point
ListS = z3.DeclareSort('ListS')      # list of borrowed expressions (search / replacement lists)
FunS = z3.DeclareSort('FunS')        # a functor object
TrS = z3.DeclareSort('TrS')          # ghost trace of visited nodes

_E = z3.Datatype('Expr'); _O = z3.Datatype('Op')
UOPS = ['ID', 'EXP', 'SIN', 'COS', 'TAN', 'FABS', 'SQRT', 'LOG', 'LOG10']
BOPS = ['PLUS', 'MINUS', 'MULT', 'DIVI']
for n in UOPS + BOPS + ['GRAD', 'DIVG']: _O.declare(n)
_O.declare('PD', ('pd_id', BV64)); _O.declare('SINT', ('si_id', BV64))
_O.declare('INT', ('in_lo', _E), ('in_hi', _E), ('in_var', BV64))
_E.declare('Const', ('cval', R)); _E.declare('ConstL', ('clval', BV64)); _E.declare('ConstI', ('cival', BV32))
_E.declare('Var', ('vid', BV64)); _E.declare('Fun', ('fid', BV64), ('ftag', BV64))
_E.declare('Un', ('uop', _O), ('uarg', _E)); _E.declare('Bin', ('bop', _O), ('blhs', _E), ('brhs', _E))
_E.declare('Vec', ('vec', VecS))
Expr, Op = z3.CreateDatatypes(_E, _O)
OPC = {n: getattr(Op, n) for n in UOPS + BOPS + ['GRAD', 'DIVG']}

def F(name, *sorts): return z3.Function(name, *sorts)
# environment
envsize = F('envsize', EnvS, BV64); envget = F('envget', EnvS, BV64, R)
env0 = z3.Const('env0', EnvS); env1 = F('env1', R, EnvS)
fval = F('fval', EnvS, BV64, BV64, R)      # formal value of a function symbol
oval = F('oval', EnvS, Op, Expr, R)        # formal value of grad/div/pd/integral nodes
vval = F('vval', EnvS, VecS, R)
i2r64 = F('i2r64', BV64, R)
def i2r32(x): return i2r64(z3.simplify(z3.SignExt(32, x)))
u2r64 = F('u2r64', BV64, R)
# library functions (trusted: libm)
LIBM = {n: F('m_' + n, R, R) for n in ('exp', 'sin', 'cos', 'tan', 'fabs', 'sqrt', 'log', 'log10')}
POW = F('m_pow', R, R, R)
# vectors, lists
vlen = F('vlen', VecS, BV64); vget = F('vget', VecS, BV64, Expr)
plen = F('plen', ListS, BV64); pget = F('pget', ListS, BV64, Expr); lof = F('lof', VecS, ListS); ldiffk = F('ldiffk', ListS, ListS, BV64)
vdiffk = F('vdiffk', VecS, VecS, BV64); vdifk = F('vdifk', VecS, Expr, BV64)
# specification functions on expressions
ev = F('ev', Expr, EnvS, R); evok = F('evok', Expr, EnvS, B); numeric = F('numeric', Expr, B)
isconst = F('isconst', Expr, B); size = F('size', Expr, I)
wd = F('wd', Expr, EnvS, B)                # evaluable, all denominators nonzero
dwd = F('dwd', Expr, EnvS, B)              # differentiable at the point
dv = F('dv', Expr, Expr, EnvS, R); difok = F('difok', Expr, Expr, B)
cs = F('cs', Expr, B); meas = F('meas', Expr, I); vmeas = F('vmeas', VecS, I); osize = F('osize', Op, I)
vdot = F('vdot', EnvS, VecS, VecS, R)
dots = F('dots', EnvS, VecS, VecS, BV64, R)    # partial dot product of the first k components
simp1 = F('simp1', Expr, Expr); simpfix = F('simpfix', Expr, Expr)   # the tree one simplify pass returns; its iteration while can_simplify
dterm = F('dterm', Expr, Expr, Expr)            # the tree diff returns (opaque; only its contract is known)
psum = F('psum', VecS, BV64, I)                # size of the first k components
vwdot = F('vwdot', EnvS, VecS, VecS, B)
gdv = F('gdv', EnvS, Expr, Expr, R)            # formal value of the gradient of a derivative
oext = F('oext', Expr, Expr, EnvS); gext = F('gext', Expr, Expr, Expr, EnvS); eext = F('eext', EnvS, EnvS, BV64)
subst = F('subst', Expr, Expr, Expr, Expr)
substL = F('substL', Expr, ListS, ListS, Expr); lmatch = F('lmatch', Expr, ListS, B); lidx = F('lidx', Expr, ListS, BV64)
vsubst = F('vsubst', VecS, Expr, Expr, VecS); vsubstL = F('vsubstL', VecS, ListS, ListS, VecS)
fmod = F('fmod', FunS, Expr, B); fmap = F('fmap', FunS, Expr, Expr); fstep = F('fstep', FunS, Expr, B)
manip = F('manip', FunS, Expr, Expr)
symF = F('symF', BV64, Expr, Expr, BV64, FunS)     # the functor replacing the integrals over symbolic interval #0 by integrals over [#1, #2] in variable #3
def FMOD(f, t):
    if f.decl().name() != 'symF': return fmod(f, t)
    return z3.And(Expr.is_Un(t), Op.is_SINT(Expr.uop(t)), Op.si_id(Expr.uop(t)) == f.arg(0))
def FMAP(f, t):
    if f.decl().name() != 'symF': return fmap(f, t)
    return z3.If(FMOD(f, t), Expr.Un(Op.INT(f.arg(1), f.arg(2), f.arg(3)), Expr.uarg(t)), t)
snoc = F('snoc', TrS, Expr, TrS); trav = F('trav', TrS, FunS, Expr, TrS)
vsize = F('vsize', VecS, I)
# operator level
uapp = F('uapp', Op, R, R); bapp = F('bapp', Op, R, R, R)
uok = F('uok', Op, B); bok = F('bok', Op, B); ocs = F('ocs', Op, B)
udvf = F('udvf', Op, R, R)                 # derivative factor of a unary operator at x

def rv(x):
    if isinstance(x, Fraction): return z3.RealVal(str(x.numerator) + '/' + str(x.denominator))
    return z3.RealVal(x)

def is_op(o, *names): return z3.Or([o == OPC[n] for n in names])

def op_defs(app):
    """definitional equation of an operator-level spec function applied to a constructor op"""
    d = app.decl().name(); o = app.arg(0); n = o.decl().name()
    if d == 'uapp':
        x = app.arg(1)
        if n == 'ID': return app == x
        if n.lower() in LIBM: return app == LIBM[n.lower()](x)
        return None
    if d == 'bapp':
        x, y = app.arg(1), app.arg(2)
        r = {'PLUS': lambda: x + y, 'MINUS': lambda: x - y, 'MULT': lambda: x * y, 'DIVI': lambda: x / y}.get(n)
        return app == r() if r else None
    if d == 'uok': return app == z3.BoolVal(n in UOPS)
    if d == 'bok': return app == z3.BoolVal(n in BOPS)
    if d == 'ocs': return app == z3.BoolVal(n in UOPS) if n not in BOPS else app == False
    if d == 'osize':
        if n == 'INT': return z3.And(app == 2 + size(o.arg(0)) + size(o.arg(1)), size(o.arg(0)) >= 1, size(o.arg(1)) >= 1)
        return app == 0
    if d == 'udvf':
        x = app.arg(1); L = LIBM
        r = {'ID': lambda: rv(1), 'EXP': lambda: L['exp'](x), 'SIN': lambda: L['cos'](x), 'COS': lambda: -L['sin'](x),
             'TAN': lambda: 1 / (L['cos'](x) * L['cos'](x)), 'SQRT': lambda: 1 / (2 * L['sqrt'](x)), 'LOG': lambda: 1 / x,
             'LOG10': lambda: 1 / (x * L['log'](rv(10)))}.get(n)
        return app == r() if r else None

C0 = lambda: Expr.Const(rv(0))
def iszero(e): return z3.And(isconst(e), ev(e, env0) == 0)

def expr_defs(app):
    d = app.decl().name(); t = app.arg(0) if app.arg(0).sort() == Expr else app.arg(2) if d == 'trav' else app.arg(1)
    h = t.decl().name(); a = t.children()
    T, Fl = z3.BoolVal(True), z3.BoolVal(False)
    def eq(x): return app == x
    if d == 'ev':
        e = app.arg(1)
        if h == 'Const': return eq(a[0])
        if h == 'ConstL': return eq(i2r64(a[0]))
        if h == 'ConstI': return eq(i2r32(a[0]))
        if h == 'Var': return eq(envget(e, a[0]))
        if h == 'Fun': return eq(fval(e, a[0], a[1]))
        if h == 'Un': return eq(z3.If(uok(a[0]), uapp(a[0], ev(a[1], e)), oval(e, a[0], a[1])))
        if h == 'Bin':
            isv = z3.And(a[0] == Op.MULT, Expr.is_Vec(a[1]), Expr.is_Vec(a[2]))
            return eq(z3.If(isv, vdot(e, Expr.vec(a[1]), Expr.vec(a[2])), bapp(a[0], ev(a[1], e), ev(a[2], e))))
        if h == 'Vec': return eq(vval(e, a[0]))
    if d == 'evok':
        e = app.arg(1)
        if h in ('Const', 'ConstL', 'ConstI'): return eq(T)
        if h == 'Var': return eq(z3.ULT(a[0], envsize(e)))
        if h in ('Fun', 'Vec'): return eq(Fl)
        if h == 'Un': return eq(z3.And(uok(a[0]), evok(a[1], e)))
        if h == 'Bin': return eq(z3.And(bok(a[0]), evok(a[1], e), evok(a[2], e)))
    if d == 'numeric':
        if h in ('Const', 'ConstL', 'ConstI', 'Var'): return eq(T)
        if h in ('Fun', 'Vec'): return eq(Fl)
        if h == 'Un': return eq(z3.And(uok(a[0]), numeric(a[1])))
        if h == 'Bin': return eq(z3.And(bok(a[0]), numeric(a[1]), numeric(a[2])))
    if d == 'isconst':
        if h in ('Const', 'ConstL', 'ConstI'): return eq(T)
        if h == 'Bin': return eq(z3.And(isconst(a[1]), isconst(a[2])))
        return eq(Fl)
    if d == 'size':
        if h == 'Un': return z3.And(app == 2 + size(a[1]) + osize(a[0]), size(a[1]) >= 1, osize(a[0]) >= 0)
        if h == 'Bin': return z3.And(app == 2 + size(a[1]) + size(a[2]) + osize(a[0]), size(a[1]) >= 1, size(a[2]) >= 1, osize(a[0]) >= 0)
        if h == 'Vec': return z3.And(app == 1 + vsize(a[0]), vsize(a[0]) >= 0)
        return eq(z3.IntVal(1))
    if d == 'wd':
        e = app.arg(1)
        if h == 'Un': return eq(z3.Or(z3.Not(uok(a[0])), wd(a[1], e)))
        if h == 'Bin':
            isv = z3.And(a[0] == Op.MULT, Expr.is_Vec(a[1]), Expr.is_Vec(a[2]))
            return eq(z3.If(isv, vwdot(e, Expr.vec(a[1]), Expr.vec(a[2])), z3.And(wd(a[1], e), wd(a[2], e), z3.Implies(a[0] == Op.DIVI, ev(a[2], e) != 0))))
        return eq(z3.BoolVal(h != 'Vec'))
    if d == 'dwd':
        e = app.arg(1)
        if h == 'Un':
            x = ev(a[1], e); o = a[0]
            return eq(z3.Or(z3.Not(uok(o)), z3.And(dwd(a[1], e), z3.Implies(o == Op.SQRT, LIBM['sqrt'](x) != 0),
                             z3.Implies(z3.Or(o == Op.LOG, o == Op.LOG10), x != 0),
                             z3.Implies(o == Op.TAN, LIBM['cos'](x) != 0))))
        if h == 'Bin': return eq(z3.And(dwd(a[1], e), dwd(a[2], e), z3.Implies(a[0] == Op.DIVI, ev(a[2], e) != 0)))
        return eq(z3.BoolVal(h != 'Vec'))
    if d == 'dv':
        x, e = app.arg(1), app.arg(2)
        if h in ('Const', 'ConstL', 'ConstI'): return eq(rv(0))
        if h in ('Var', 'Fun'): return eq(z3.If(t == x, rv(1), rv(0)))
        if h == 'Un':
            if a[0].decl().name() in UOPS: return eq(udvf(a[0], ev(a[1], e)) * dv(a[1], x, e))
            if a[0].decl().name() == 'GRAD': return eq(gdv(e, a[1], x))
            return None
        if h == 'Bin':
            u, v, du, dw = ev(a[1], e), ev(a[2], e), dv(a[1], x, e), dv(a[2], x, e)
            n = a[0].decl().name()
            if n == 'PLUS': return eq(du + dw)
            if n == 'MINUS': return eq(du - dw)
            if n == 'MULT': return eq(du * v + u * dw)
            if n == 'DIVI': return eq((du * v - u * dw) / (v * v))
        return None
    if d == 'difok':
        x = app.arg(1)
        if h in ('Const', 'ConstL', 'ConstI', 'Var'): return eq(T)
        if h == 'Fun': return eq(Expr.is_Fun(x))
        if h == 'Un':
            n = a[0].decl().name()
            if n == 'FABS': return eq(Fl)
            if n in UOPS: return eq(difok(a[1], x))
            if n == 'GRAD': return eq(z3.And(Expr.is_Fun(x), difok(a[1], x)))
            if n in ('DIVG', 'PD', 'SINT', 'INT'): return eq(Fl)
            return None
        if h == 'Bin':
            if a[0].decl().name() in BOPS: return eq(z3.And(difok(a[1], x), difok(a[2], x)))
        return None
    if d == 'cs':
        if h == 'Un': return eq(cs(a[1]))
        if h == 'Bin':
            o, l, r = a
            c1 = lambda e: z3.And(isconst(e), ev(e, env0) == 1)
            return eq(z3.And(bok(o), z3.Or(z3.And(isconst(l), isconst(r)),
                            z3.And(o == Op.PLUS, z3.Or(iszero(l), iszero(r))),
                            z3.And(o == Op.MINUS, z3.Or(iszero(l), iszero(r))),
                            z3.And(o == Op.MULT, z3.Or(iszero(l), iszero(r), c1(l), c1(r), z3.And(Expr.is_Vec(l), Expr.is_Vec(r)))),
                            z3.And(o == Op.DIVI, z3.Or(iszero(l), c1(r))),
                            cs(l), cs(r))))
        return eq(Fl)
    if d == 'meas':
        if h == 'Un': return z3.And(app == 1 + meas(a[1]), meas(a[1]) >= 1)
        if h == 'Bin': return z3.And(app == meas(a[1]) + meas(a[2]) + z3.If(a[0] == Op.MINUS, 3, 1), meas(a[1]) >= 1, meas(a[2]) >= 1)
        if h == 'Vec': return z3.And(app == 1 + vmeas(a[0]), vmeas(a[0]) >= 0)
        return eq(z3.IntVal(1))
    if d == 'subst':
        s, r = app.arg(1), app.arg(2)
        if h == 'Un': reb = Expr.Un(a[0], subst(a[1], s, r))
        elif h == 'Bin': reb = Expr.Bin(a[0], subst(a[1], s, r), subst(a[2], s, r))
        elif h == 'Vec': reb = Expr.Vec(vsubst(a[0], s, r))
        else: reb = t
        return eq(z3.If(t == s, r, reb))
    if d == 'substL':
        s, r = app.arg(1), app.arg(2)
        if h == 'Un': reb = Expr.Un(a[0], substL(a[1], s, r))
        elif h == 'Bin': reb = Expr.Bin(a[0], substL(a[1], s, r), substL(a[2], s, r))
        elif h == 'Vec': reb = Expr.Vec(vsubstL(a[0], s, r))
        else: reb = t
        return eq(z3.If(lmatch(t, s), pget(r, lidx(t, s)), reb))
    if d == 'manip':
        f = app.arg(0)
        if h == 'Un': reb = Expr.Un(a[0], manip(f, a[1]))
        elif h == 'Bin': reb = Expr.Bin(a[0], manip(f, a[1]), manip(f, a[2]))
        else: return eq(FMAP(f, t))
        return eq(z3.If(FMOD(f, t), FMAP(f, t), reb))
    if d == 'trav':
        tr, f = app.arg(0), app.arg(1)
        if h == 'Un': return eq(trav(snoc(tr, t), f, a[1]))
        if h == 'Bin': return eq(z3.If(fstep(f, t), trav(snoc(trav(tr, f, a[1]), t), f, a[2]), snoc(tr, t)))
        return eq(snoc(tr, t))
    return None

SPEC1 = {f.name() for f in (ev, evok, numeric, isconst, size, wd, dwd, dv, difok, cs, meas, subst, substL, manip, trav)}
OPSPEC = {f.name() for f in (uapp, bapp, uok, bok, ocs, udvf, osize)}
CTORS = {'Const', 'ConstL', 'ConstI', 'Var', 'Fun', 'Un', 'Bin', 'Vec'}
OPCTORS = set(UOPS + BOPS + ['GRAD', 'DIVG', 'PD', 'SINT', 'INT'])

def spec_arg_index(app):
    d = app.decl().name()
    return 2 if d == 'trav' else 1 if d == 'manip' else 0

class Query:
    """collects formulas, saturates with definitions, decides"""
    def __init__(self, facts, forall=(), lem=True):
        self.lem = lem; self.gconst = []
        self.out = []; self.seen = set(); self.queue = list(facts)
        self.forall = list(forall)           # (trigger decl name, first-arg term or None, lambda index -> formula)
        self.apps = {}                       # declname -> dict(id->app)
        self.eqs = {}                        # id(term) -> list of constructor terms known equal
        self.done = set(); self.keep = []
        self.inst = set()
    def visit(self, f):
        st = [f]
        while st:
            x = st.pop()
            if not z3.is_expr(x): continue
            i = x.get_id()
            if i in self.seen: continue
            self.seen.add(i); self.keep.append(x)
            if z3.is_app(x):
                d = x.decl()
                if d.kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_CONSTRUCTOR) and (x.num_args() or x.sort() in (VecS,)):
                    self.apps.setdefault(d.name(), {})[i] = x
                if d.kind() == z3.Z3_OP_EQ and x.arg(0).sort() in (Expr, Op):
                    a, b = x.arg(0), x.arg(1)
                    for p, q in ((a, b), (b, a)):
                        if self.ctor(q) and not self.ctor(p): self.eqs.setdefault(p.get_id(), {})[q.get_id()] = q
                st.extend(x.children())
    @staticmethod
    def ctor(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR
    def add(self, f):
        if f is None: return
        i = f.get_id()
        if i in self.inst: return
        self.inst.add(i); self.out.append(f); self.keep.append(f); self.visit(f)
    def saturate(self, rounds=14, limit=6000):
        for f in self.queue: self.add(f)
        self.queue = []
        for _ in range(rounds):
            n = len(self.out)
            for name in list(self.apps):
                if name in SPEC1:
                    for app in list(self.apps[name].values()):
                        ai = spec_arg_index(app); t = app.arg(ai)
                        key = ('d', app.get_id())
                        if self.ctor(t):
                            if key not in self.done:
                                self.done.add(key); self.add(expr_defs(app))
                                # operator equal to a constructor: add the version with that constructor
                            if t.decl().name() in ('Un', 'Bin') and not self.ctor(t.arg(0)):
                                for q in list(self.eqs.get(t.arg(0).get_id(), {}).values()):
                                    k = ('o', app.get_id(), q.get_id())
                                    if k not in self.done:
                                        self.done.add(k)
                                        t2 = t.decl()(q, *t.children()[1:]); ch = app.children(); ch[ai] = t2
                                        self.keep.append(t2); self.visit(app.decl()(*ch))
                        for q in list(self.eqs.get(t.get_id(), {}).values()):
                            k = ('e', app.get_id(), q.get_id())
                            if k in self.done: continue
                            self.done.add(k); ch = app.children(); ch[ai] = q
                            na = app.decl()(*ch); self.visit(na)
                elif name in OPSPEC:
                    for app in list(self.apps[name].values()):
                        t = app.arg(0); key = ('d', app.get_id())
                        if self.ctor(t) and key not in self.done:
                            self.done.add(key); self.add(op_defs(app))
                        for q in list(self.eqs.get(t.get_id(), {}).values()):
                            k = ('e', app.get_id(), q.get_id())
                            if k in self.done: continue
                            self.done.add(k); ch = app.children(); ch[0] = q; self.visit(app.decl()(*ch))
            self.axioms()
            if len(self.out) == n or len(self.out) > limit: break
        return self.out
    def axioms(self):
        A = lambda n: list(self.apps.get(n, {}).values())
        for nm, w in (('i2r64', 64), ('u2r64', 64)):
            for x in A(nm):
                if z3.is_bv_value(x.arg(0)): self.add(x == (x.arg(0).as_signed_long() if nm[0] == 'i' else x.arg(0).as_long()))
        # containers have no more components than memory has room for
        for x in A('vlen') + A('plen') + A('envsize'): self.add(z3.ULT(x, z3.BitVecVal(1 << 60, 64)))
        # signed integers as reals: exact as long as the machine operation does not overflow
        for x in A('i2r64'):
            t = x.arg(0)
            if not z3.is_app(t) or t.num_args() == 0 or z3.is_bv_value(t): continue
            k = t.decl().kind(); ch = t.children()
            if k == z3.Z3_OP_BADD:
                a, b = ch[0], ch[1] if len(ch) == 2 else t.decl()(*ch[1:])
                self.add(z3.Implies(z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), x == i2r64(a) + i2r64(b)))
            elif k == z3.Z3_OP_BMUL and len(ch) == 2:
                a, b = ch
                if z3.is_bv_value(a) and a.as_signed_long() == -1: self.add(z3.Implies(b != z3.BitVecVal(1 << 63, 64), x == -i2r64(b)))
                else: self.add(z3.Implies(z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), x == i2r64(a) * i2r64(b)))
            elif k == z3.Z3_OP_BSUB and len(ch) == 2:
                a, b = ch; self.add(z3.Implies(z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), x == i2r64(a) - i2r64(b)))
        for x in A('m_log'):
            self.add(z3.Implies(x.arg(0) == 10, z3.And(x > 2, x < 3)))
        # environments
        for x in A('env1'):
            self.add(envsize(x) == 1); self.add(envget(x, z3.BitVecVal(0, 64)) == x.arg(0))
        self.add(envsize(env0) == 0)
        # constants evaluate the same everywhere (lemma `isconst`, proved by induction in units.py)
        if not self.lem: ics0 = 1
        ics = {x.arg(0).get_id() for x in A('isconst')}
        for x in A('ev') + A('evok'):
            t, e = x.arg(0), x.arg(1)
            if self.lem and t.get_id() in ics:
                self.add(z3.Implies(isconst(t), z3.And(evok(t, e), evok(t, env0), ev(t, e) == ev(t, env0))))
        for x in A('simpfix'):
            t = x.arg(0); self.add(z3.Implies(z3.Not(cs(t)), x == t))
            for y in A('simp1'):
                if y.arg(0).eq(t): self.add(z3.Implies(cs(t), x == simpfix(y)))
        for x in A('meas'): self.add(x >= 1)
        for x in A('size'): self.add(x >= 1)
        # well-definedness implies evaluability (lemmas `wd-evok`, `dwd-wd`)
        for x in A('dwd'):
            if self.lem: self.add(z3.Implies(x, wd(x.arg(0), x.arg(1))))
        for x in A('cs'):
            if self.lem: self.add(z3.Implies(x, meas(x.arg(0)) >= 2))
        for x in A('wd') + A('evok') + A('isconst') + A('dwd'):
            if not Query.ctor(x.arg(0)):
                t = x.arg(0); c = {'evok': (Expr.is_Vec, Expr.is_Fun), 'isconst': (Expr.is_Vec, Expr.is_Fun, Expr.is_Var, Expr.is_Un)}.get(x.decl().name(), (Expr.is_Vec,))
                self.add(z3.Implies(x, z3.Not(z3.Or([f(t) for f in c]))))
                if x.decl().name() == 'isconst':       # definition of isconst and cs by the root of a (well-formed) tree
                    lf = z3.Or(Expr.is_Const(t), Expr.is_ConstL(t), Expr.is_ConstI(t))
                    self.add(z3.Implies(lf, x))
                    if 'cs' in self.apps: self.add(z3.Implies(x, z3.Or(lf, cs(t)))); self.add(z3.Implies(lf, z3.Not(cs(t))))
        for x in A('vwdot'):
            e, a, b = x.children()
            for y in A('vget'):
                if y.arg(0).eq(a): 
                    k = y.arg(1); self.add(z3.Implies(z3.And(x, z3.ULT(k, vlen(a))), wd(Expr.Bin(Op.MULT, vget(a, k), vget(b, k)), e)))
        for x in A('vsize'):
            v = x.arg(0); self.add(z3.Implies(vlen(v) != 0, x >= 1))
            for y in A('vget'):
                if y.arg(0).eq(v): self.add(z3.Implies(z3.ULT(y.arg(1), vlen(v)), size(y) <= x))
        for x in A('osize') + A('vmeas') + A('vsize'): self.add(x >= 0)
        # formal operators: congruence (they depend only on the function denoted by the operand)
        ov = A('oval')
        for x in ov:
            if Query.ctor(x.arg(2)) and x.arg(2).decl().name() in ('Const', 'ConstL', 'ConstI'):
                self.add(z3.Implies(x.arg(1) == Op.GRAD, x == 0))
        if len(ov) <= 12:
            for i in range(len(ov)):
                for j in range(i + 1, len(ov)):
                    a, b = ov[i], ov[j]; w = oext(a.arg(2), b.arg(2))
                    if a.arg(2).eq(b.arg(2)) or not a.arg(0).eq(b.arg(0)): continue
                    self.add(z3.Or(a == b, a.arg(1) != b.arg(1), a.arg(2) == b.arg(2), z3.And(wd(a.arg(2), w), wd(b.arg(2), w), ev(a.arg(2), w) != ev(b.arg(2), w))))
        for g in A('gdv'):
            for a in ov:
                if not a.arg(0).eq(g.arg(0)): continue
                w = gext(g.arg(1), g.arg(2), a.arg(2))
                self.add(z3.Or(a == g, a.arg(1) != Op.GRAD, z3.And(dwd(g.arg(1), w), ev(a.arg(2), w) != dv(g.arg(1), g.arg(2), w))))
            # the derivative is a numeric constant: its gradient is zero
            for k in A('Const'):
                w = gext(g.arg(1), g.arg(2), k)
                self.add(z3.Or(g == 0, z3.And(dwd(g.arg(1), w), dv(g.arg(1), g.arg(2), w) != ev(k, w))))
        if self.lem:
            for x in A('dv'):
                t = x.arg(0)
                if not Query.ctor(t) or t.decl().name() == 'Bin': self.add(z3.Implies(z3.And(isconst(t), bok(t.arg(0)) if Query.ctor(t) else z3.BoolVal(True), wd(t, x.arg(2))), x == 0))
        # vectors: differentiability is component-wise; a derivative of a vector is a vector of derivatives
        for x in A('difok'):
            t, v = x.arg(0), x.arg(1)
            # operands are well-formed: a constant one is a number or binary operators on numbers, and those have a derivative (suite_lemma)
            if self.lem and (not Query.ctor(t) or t.decl().name() == 'Bin'): self.add(z3.Implies(z3.And(isconst(t), bok(t.arg(0)) if Query.ctor(t) else z3.BoolVal(True)), difok(t, v)))
            if Query.ctor(t) and t.decl().name() == 'Vec':
                w = t.arg(0); k = vdifk(w, v)
                self.add(z3.Or(x, z3.And(z3.ULT(k, vlen(w)), z3.Not(difok(vget(w, k), v)))))
                for y in A('vget'):
                    if y.arg(0).eq(w): self.add(z3.Implies(z3.And(x, z3.ULT(y.arg(1), vlen(w))), difok(y, v)))
        if self.lem:
            for x in A('evok'):
                if 'numeric' in self.apps: self.add(z3.Implies(x, numeric(x.arg(0))))
        # environments: extensionality
        es = {}
        for n in ('ev', 'evok'):
            for x in A(n): es[x.arg(1).get_id()] = x.arg(1)
        es = [e for e in es.values() if e.decl().name() not in ('oext', 'gext')]
        if 2 <= len(es) <= 5:
            for i in range(len(es)):
                for j in range(i + 1, len(es)):
                    a, b = es[i], es[j]; k = eext(a, b)
                    if a.eq(env0) or b.eq(env0): continue
                    self.add(z3.Or(a == b, envsize(a) != envsize(b), z3.And(z3.ULT(k, envsize(a)), envget(a, k) != envget(b, k))))
        # dot product as a sum
        for x in A('vdot'):
            self.add(x == dots(x.arg(0), x.arg(1), x.arg(2), vlen(x.arg(1))))
        for n in ('vdot', 'vwdot'):
            l = A(n)[:8]
            for i, x in enumerate(l):
                for y in l[:i]:
                    if x.arg(0).eq(y.arg(0)): self.add(z3.Implies(z3.And(x.arg(1) == y.arg(2), x.arg(2) == y.arg(1), vlen(x.arg(1)) == vlen(x.arg(2))), x == y))       # the product of two components commutes
        for x in A('vdot')[:8]:
            for y in A('dots')[:24]:
                if x.arg(0).eq(y.arg(0)): self.add(z3.Implies(z3.And(x.arg(1) == y.arg(2), x.arg(2) == y.arg(1), y.arg(3) == vlen(x.arg(1))), x == y))
        for x in A('dots'):
            e, a, b, k = x.children(); one = z3.BitVecVal(1, 64)
            self.add(z3.Implies(k == 0, x == 0))
            if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_BADD:
                m = z3.simplify(k - one)
                self.visit(dots(e, a, b, m))
            if z3.is_bv_value(k) and 0 < k.as_long() <= 8:
                m = z3.BitVecVal(k.as_long() - 1, 64)
                self.add(x == dots(e, a, b, m) + ev(Expr.Bin(Op.MULT, vget(a, m), vget(b, m)), e))
        ks = {}
        for x in A('dots'): ks.setdefault((x.arg(0).get_id(), x.arg(1).get_id(), x.arg(2).get_id()), []).append(x)
        for grp in ks.values():
            if len(grp) > 12: continue
            for x in grp:
                for y in grp:
                    if x.eq(y): continue
                    e, a, b, k = x.children(); m = y.arg(3)
                    self.add(z3.Implies(z3.And(k == m + 1, m != z3.BitVecVal(2**64 - 1, 64)), x == y + ev(Expr.Bin(Op.MULT, vget(a, m), vget(b, m)), e)))
        for x in A('vmeas'):
            self.add(x == psum(x.arg(0), vlen(x.arg(0))))
        ks = {}
        for x in A('psum'):
            v, k = x.children(); self.add(x >= 0); self.add(z3.Implies(k == 0, x == 0)); ks.setdefault(v.get_id(), []).append(x)
            if z3.is_bv_value(k) and 0 < k.as_long() <= 8:
                m = z3.BitVecVal(k.as_long() - 1, 64); self.add(x == psum(v, m) + meas(vget(v, m)) + 1)
        for grp in ks.values():
            if len(grp) > 12: continue
            for x in grp:
                for y in grp:
                    if x.eq(y): continue
                    v, k = x.children(); m = y.arg(1)
                    self.add(z3.Implies(z3.And(k == m + 1, m != z3.BitVecVal(2**64 - 1, 64)), x == y + meas(vget(v, m)) + 1))
        # first match in a list
        for x in A('lmatch'):
            t, s = x.arg(0), x.arg(1); i = lidx(t, s)
            self.add(z3.Implies(x, z3.And(z3.ULT(i, plen(s)), pget(s, i) == t)))
            for y in A('pget'):
                if y.arg(0).eq(s):
                    k = y.arg(1)
                    self.add(z3.Implies(z3.And(z3.ULT(k, plen(s)), z3.Implies(x, z3.ULT(k, i))), y != t))
            for y in A('lidx'):
                if y.arg(1).eq(s):
                    k = y
                    self.add(z3.Implies(z3.And(z3.ULT(k, plen(s)), z3.Implies(x, z3.ULT(k, i))), pget(s, k) != t))
        # lists of pointers to the components of a vector; extensionality
        for x in A('lof'): self.add(plen(x) == vlen(x.arg(0)))
        if 'lof' in self.apps:
            ls = {}
            for n, i in (('lof', None), ('plen', 0), ('pget', 0), ('lmatch', 1), ('substL', 1), ('substL', 2)):
                for x in A(n):
                    t = x if i is None else x.arg(i); ls[t.get_id()] = t
            ls = list(ls.values())
            for i in range(len(ls)):
                for j in range(i + 1, len(ls)):
                    a, b = ls[i], ls[j]
                    if len(ls) > 6: break
                    k = ldiffk(a, b); self.add(z3.Or(a == b, plen(a) != plen(b), z3.And(z3.ULT(k, plen(a)), pget(a, k) != pget(b, k))))
            for x in A('pget'):
                if x.arg(0).decl().name() == 'lof': self.add(x == vget(x.arg(0).arg(0), x.arg(1)))
        # mapped vectors
        for x in A('vsubst'): self.add(vlen(x) == vlen(x.arg(0)))
        for x in A('vsubstL'): self.add(vlen(x) == vlen(x.arg(0)))
        for x in A('vget'):
            v = x.arg(0)
            if v.decl().name() == 'vsubst': self.add(x == subst(vget(v.arg(0), x.arg(1)), v.arg(1), v.arg(2)))
            if v.decl().name() == 'vsubstL': self.add(x == substL(vget(v.arg(0), x.arg(1)), v.arg(1), v.arg(2)))
        # extensionality
        vs = {}
        for x in A('Vec') + A('vlen'): vs[x.arg(0).get_id()] = x.arg(0)
        for x in A('vget'): vs[x.arg(0).get_id()] = x.arg(0)
        for x in A('vsubst') + A('vsubstL'): vs[x.get_id()] = x
        vs = list(vs.values())
        if len(vs) <= 8:
            for i in range(len(vs)):
                for j in range(i + 1, len(vs)):
                    a, b = vs[i], vs[j]; k = vdiffk(a, b)
                    self.add(z3.Or(a == b, vlen(a) != vlen(b), z3.And(z3.ULT(k, vlen(a)), vget(a, k) != vget(b, k))))
        # user universal facts
        for fi, (trig, first, fn) in enumerate(self.forall):
            for x in A(trig):
                if first is not None and not x.arg(0).eq(first): continue
                k = x.arg(x.num_args() - 1)
                key = ('q', fi, k.get_id())
                if key not in self.done:
                    self.done.add(key); self.add(fn(k))

class Prover:
    def __init__(self, timeout=8000):
        self.timeout = timeout; self.n = 0; self.t = 0.0; self.cache = {}; self.by = {'z3': 0}
        self.log = []
    def _mk(self, facts, goal, forall, lem=True):
        q = Query(list(facts) + ([z3.Not(goal)] if goal is not None else []), forall, lem)
        q.saturate(); return q
    def check(self, facts, goal=None, forall=(), want_model=False, timeout=None, lem=True):
        """goal None: satisfiability of facts -> 'sat'/'unsat'/'unknown'. Otherwise 'unsat' means goal proved."""
        t0 = time.time()
        key = (tuple(sorted(f.get_id() for f in facts)), goal.get_id() if goal is not None else None, tuple(id(x[2]) for x in forall), lem)
        if not want_model and key in self.cache: return self.cache[key][0]
        q = self._mk(facts, goal, forall, lem)
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', timeout or self.timeout); s.set('random_seed', 1)
        for f in q.out: s.add(f)
        r = str(s.check()); self.n += 1
        self.t += time.time() - t0
        self.cache[key] = (r, facts, goal, forall)
        if want_model: return r, (s.model() if r == 'sat' else None), s
        return r
    def feasible(self, facts, forall=()):
        return self.check(facts, None, forall, timeout=3000) != 'unsat'

    def second(self, facts, goal, forall):
        """a second back end (cvc5) for goals z3 leaves undecided"""
        try:
            import cvc5, cvc5.pythonic
        except Exception: return False
        q = self._mk(facts, goal, forall)
        s = z3.Solver()
        for f in q.out: s.add(f)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            tm = cvc5.TermManager(); slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', str(self.timeout)); slv.setOption('nl-ext-tplanes', 'true')
            p = cvc5.InputParser(slv); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager(); res = ''
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                r = c.invoke(slv, sm)
                if 'sat' in str(r): res = str(r).strip()
            if res == 'unsat': self.by['cvc5'] = self.by.get('cvc5', 0) + 1
            return res == 'unsat'
        except Exception as e:
            return False
