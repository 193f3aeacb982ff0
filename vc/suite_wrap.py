"""Front ends: free functions, operators, wrapper classes.  Every library entry
point is called from a one-line extern "C" wrapper compiled from the current
tree; the wrapper's body is the library call, so the verified text is the
library's own code as clang compiles it."""
import itertools, re, z3
import logic as L
from logic import Expr, Op
from exec import *
from contracts import *
import units as U
import text as TX
from build import TU

HEAD = '''#include "acc.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
struct PV { typedef double value_type; unsigned long size() const; double operator[](unsigned long) const; };
typedef std::vector<double> DV;
typedef std::vector<RE> REV;
template <long i> struct cc_ : vm::ct_constant<i> {};
'''
# ------------------------------------------------------------------ operands
TREE = {'B': ('RB', 'Bin'), 'U': ('RU', 'Un'), 'V': ('RV', 'Var'), 'F': ('RF', 'Fun'), 'C': ('RC', 'Const'), 'CL': ('RCL', 'ConstL'), 'CI': ('RCI', 'ConstI'), 'X': ('VE', 'Vec')}
CPP = {'E': 'RE const&', 'd': 'double', 'l': 'long', 'i': 'int', 'ul': 'unsigned long', 'P': 'DV const&', 'PV': 'PV const&', 'I': 'IF const*', 'E0': 'RE const&', 'EM': 'RE &', 'EN': 'RE &',
       'XM': 'VE &', 'BM': 'RB &', 'UM': 'RU &', 'VM': 'RV &', 'FM': 'RF &', 'CM': 'RC &', 'Q': 'RQ const&', 'N': 'RI const&', 'QM': 'RQ &', 'NM': 'RI &', 'REV': 'REV const&', 'SI': 'SI const&', 'S': 'std::string const&'}
CPP.update({k: v[0] + ' const&' for k, v in TREE.items()})
class Arg:
    """one wrapper argument: term (Expr) or num (real value)"""
    def __init__(self, kind, vals, term=None, num=None, env=None): self.kind, self.vals, self.term, self.num, self.env = kind, vals, term, num, env
def obj(x, st, T, cls_head, name, ro=True, owned=False):
    """object of a fixed class with term T"""
    con = x.con; b = x.new_block(st, 'abs', None, name); b.root = 'E'; b.term = T; b.ro = ro; b.owned = owned
    con.unfold(st, b.id, con.cls[('E', cls_head)]); return Ptr(b.id, 0)
def rexpr(x, st, p, name, ro=True):
    """an rt_expr object holding p"""
    o = x.new_block(st, 'ext', 8, name); o.ro = ro; o.cells[x.con.accessor('expr', 0)] = (8, p); return Ptr(o.id, 0)
def mkarg(x, st, kind, name):
    c = lambda s: z3.Const(name, s)
    if kind == 'E':
        T = c(Expr); return Arg(kind, [rexpr(x, st, x.con.borrowed(st, T, 'E', name), name)], T)
    if kind == 'I':
        T = c(Expr); return Arg(kind, [x.con.borrowed(st, T, 'E', name)], T)
    if kind in TREE:
        T = U.sym_expr(x, TREE[kind][1])
        num = {'C': lambda: T.arg(0), 'CL': lambda: L.i2r64(T.arg(0)), 'CI': lambda: L.i2r32(T.arg(0))}.get(kind)
        return Arg(kind, [obj(x, st, T, TREE[kind][1], name)], T, num() if num else None)
    if kind == 'd': v = c(L.R); return Arg(kind, [v], None, v)
    if kind == 'l': v = c(L.BV64); return Arg(kind, [v], None, L.i2r64(v))
    if kind == 'i': v = c(L.BV32); return Arg(kind, [v], None, L.i2r32(v))
    if kind == 'ul': return Arg(kind, [c(L.BV64)])
    if kind == 'P': return Arg(kind, [U.env_arg(x, st, c(L.EnvS), name)], env=c(L.EnvS))
    if kind == 'PV':
        o = x.new_block(st, 'ext', 8, name); o.ro = True; o.env = c(L.EnvS); return Arg(kind, [Ptr(o.id, 0)], env=c(L.EnvS))
    if kind in ('E0', 'EN'):
        return Arg(kind, [rexpr(x, st, NULL, name, ro=kind == 'E0')])
    if kind == 'EM':
        T = c(Expr); b = x.new_block(st, 'abs', None, 'content of ' + name); b.root = 'E'; b.term = T; b.owned = True
        return Arg(kind, [rexpr(x, st, Ptr(b.id, 0), name, ro=False)], T)
    if len(kind) == 2 and kind[1] == 'M' and kind[0] in TREE:
        T = U.sym_expr(x, TREE[kind[0]][1]); return Arg(kind, [obj(x, st, T, TREE[kind[0]][1], name, ro=False)], T, T.arg(0) if kind == 'CM' else None)
    if kind in ('Q', 'N', 'QM', 'NM'):
        h = 'eqn' if kind[0] == 'Q' else 'ivl'; m = kind[1:] == 'M'; o = x.new_block(st, 'ext', 16, name); o.ro = not m; ts = []
        for i in (0, 1):
            T = z3.Const('%s_%d' % (name, i), Expr); b = x.new_block(st, 'abs', None, '%s side %d' % (name, i)); b.root = 'E'; b.term = T; b.owned = m; b.ro = not m
            o.cells[x.con.accessor(h, i)] = (8, Ptr(b.id, 0)); ts.append(T)
        a = Arg(kind, [Ptr(o.id, 0)]); a.sides = ts; return a
    if kind == 'REV':
        v = c(L.VecS); d = x.new_block(st, 'vec', None, name); d.ek = 'rtexpr'; d.n = L.vlen(v); d.base = lambda k, v=v: L.vget(v, k); d.null = False; d.env = v; d.ro = True
        o = x.new_block(st, 'ext', 24, name); o.ro = True; o.cells[0] = (24, VecVal(d.id)); a = Arg(kind, [Ptr(o.id, 0)]); a.vec = v; return a
    if kind == 'S':
        o = x.new_block(st, 'ext', 32, name); o.ro = True; TX.put(st, 'str', (o.id, 0), (('cust', name),)); return Arg(kind, [Ptr(o.id, 0)])
    if kind == 'SI':
        o = x.new_block(st, 'ext', 8, name); o.ro = True; o.cells[x.con.accessor('sivl', 0)] = (8, c(L.BV64)); a = Arg(kind, [Ptr(o.id, 0)]); a.id = c(L.BV64); return a
    raise Unsupported('argument kind ' + kind)

class W:
    """one wrapper: params 'E:a d:s', C++ statement(s), postcondition post(c, o)"""
    def __init__(self, uid, ret, params, body, post, pre=None, props=None, hints=None):
        self.hints = hints or {}; self.uid, self.ret, self.params, self.body, self.post, self.pre, self.props = uid, ret, [p.split(':') for p in params.split()], body, post, pre, props
    def line(self):
        b = self.body if ';' in self.body else ('return %s;' % self.body if self.ret != 'void' else self.body + ';')
        return 'extern "C" %s w__%s(%s) { %s }' % (self.ret, self.uid, ', '.join('%s %s' % (CPP[k] if k in CPP else k, n) for k, n in self.params), b)
class Ctx:
    def __init__(self, x, st, W): self.x, self.st0, self.W, self.a, self.out = x, st, W, {}, None
    def tree(self, o, props=('P11', 'P12'), extra=()):
        """the expression in the returned rt_expr; checks ownership"""
        x, s = self.x, o.st
        p = s.blocks[self.out.b].cells.get(x.con.accessor('expr', 0))
        if p is None: raise Unsupported('result not set')
        return U.finish_ptr(x, s, p[1], props)
    def object(self, o, p=None):
        """term of the node object returned by value (or at p); checks ownership"""
        x, s = self.x, o.st; p = p or self.out; seen = set()
        t = x.con.fold(s, p); U.walk_cells(x, s, s.blocks[p.b], seen, ('P11', 'P12')); U.leaks(x, s, seen); return t
    def parts(self, o, head, n, p=None):
        """terms of the rt_expr members of the returned object"""
        x, s = self.x, o.st; p = p or self.out; seen = set(); ts = []
        for i in range(n):
            q = s.blocks[p.b].cells.get(x.con.accessor(head, i))
            if q is None: raise Unsupported('result not set')
            ts.append(x.con.fold(s, q[1]) if q[1] != NULL else None)
            U.walk(x, s, q[1], seen, ('P11', 'P12'))
        U.leaks(x, s, seen); return ts
    def ob(self, o, props, name, g): return self.x.oblige(o.st, props, name, g)
def run_wrapper(x, w):
    con = x.con; con.measure = None; x.unit_key = None
    st = State(); c = Ctx(x, st, w); args = []
    fn = 'w__' + w.uid; f = x.m.funcs[fn]
    if f.sret:
        o = x.new_block(st, 'ext', 64, 'result'); c.out = Ptr(o.id, 0); args.append(c.out)
    for k, n in w.params:
        a = mkarg(x, st, k, n); c.a[n] = a; args += a.vals
    if w.pre: w.pre(c)
    x.assume(st, z3.BoolVal(True))
    for o in x.call_function(st, fn, args):
        x.stats['paths'] += 1
        if o.kind == 'ret': x.stats['ret'] = x.stats.get('ret', 0) + 1
        try: w.post(c, o)
        except DeadPath: pass

# ------------------------------------------------------------------ specification helpers
def leafval(R, v):
    return z3.Or(z3.And(Expr.is_Const(R), Expr.cval(R) == v), z3.And(Expr.is_ConstL(R), L.i2r64(Expr.clval(R)) == v), z3.And(Expr.is_ConstI(R), L.i2r32(Expr.cival(R)) == v))
def same(R, a):
    """R is the operand a (numbers: a constant leaf of that value)"""
    return leafval(R, a.num) if a.num is not None else R == a.term
def spec(a):
    """the term an operand denotes"""
    return Expr.Const(a.num) if a.num is not None else a.term
SUBI = {'uop': 0, 'uarg': 1, 'bop': 0, 'blhs': 1, 'brhs': 2, 'vec': 0}
def sub(R, *path):
    for p in path: R = getattr(Expr, p)(R) if not (L.Query.ctor(R) and R.num_args() > SUBI[p] and R.decl().name() == {'u': 'Un', 'b': 'Bin', 'v': 'Vec'}[p[0]]) else R.arg(SUBI[p])
    return R
def must_return(c, o, props, msg='no exception and no failing assertion'):
    if o.kind != 'ret': c.ob(o, props, msg, False); raise DeadPath()

# ------------------------------------------------------------------ P03: operators
OPN = {'+': ('plus', 'PLUS'), '-': ('minus', 'MINUS'), '*': ('mult', 'MULT'), '/': ('div', 'DIVI')}
# operands that only exist inside the wrapper: expression text, extra parameter, meaning
CTK = {'cc': ('vm::ct_constant<3>()', None, lambda p: ('num', L.rv(3))), 'cv': ('vm::ct_variable<1>()', None, lambda p: ('tree', Expr.Var(L.z3.BitVecVal(1, 64)))),
       'cm': ('vm::ct_constant<-3>()', None, lambda p: ('num', L.rv(-3))), 'cw': ('vm::ct_variable<7>()', None, lambda p: ('tree', Expr.Var(L.z3.BitVecVal(7, 64)))),
       'cz': ('vm::ct_constant<0>()', None, lambda p: ('num', L.rv(0))), 'co': ('vm::ct_constant<1>()', None, lambda p: ('num', L.rv(1))), 'ck': ('vm::ct_constant<5000000001L>()', None, lambda p: ('num', L.rv(5000000001)))}
CVIDS = (0, 1, 2, 3, 4, 5, 7, 12, 300)         # identifiers used for compile-time variables (a template argument has to be a number)
def cvar(n): return Expr.Var(z3.BitVecVal(n, 64))
V1 = Expr.Var(z3.BitVecVal(1, 64)); V0 = Expr.Var(z3.BitVecVal(0, 64))
def K(v): return Expr.Const(L.rv(v))
CTB = {'cb': ('(vm::ct_variable<0>() %s vm::ct_variable<1>())' % '-', None, lambda p: Expr.Bin(Op.MINUS, V0, V1)),
       'cp': ('(vm::ct_constant<5000000007L>() + vm::ct_variable<0>())', None, lambda p: Expr.Bin(Op.PLUS, K(5000000007), V0)),
       'cn': ('(vm::ct_constant<5000000007L>() - vm::ct_variable<0>())', None, lambda p: Expr.Bin(Op.MINUS, K(5000000007), V0)),
       'cq': ('(RC(%s) + (vm::ct_constant<5000000007L>() + vm::ct_variable<0>()))', 'd', lambda p: Expr.Bin(Op.PLUS, Expr.Const(p + 5000000007), V0)),
       'cr': ('(RC(%s) - (vm::ct_constant<5000000007L>() + vm::ct_variable<0>()))', 'd', lambda p: Expr.Bin(Op.MINUS, Expr.Const(p - 5000000007), V0)),
       'cV': ('(vm::ct_variable<1>() + vm::ct_variable<0>())', None, lambda p: Expr.Bin(Op.PLUS, V1, V0)),
       'cx': ('(vm::ct_variable<0>() * vm::ct_variable<1>())', None, lambda p: Expr.Bin(Op.MULT, V0, V1)), 'cd': ('(vm::ct_variable<0>() / vm::ct_variable<1>())', None, lambda p: Expr.Bin(Op.DIVI, V0, V1)),
       'ct': ('(vm::ct_constant<5000000007L>() * vm::ct_variable<0>())', None, lambda p: Expr.Bin(Op.MULT, K(5000000007), V0)), 'ci': ('(vm::ct_constant<5000000007L>() / vm::ct_variable<0>())', None, lambda p: Expr.Bin(Op.DIVI, K(5000000007), V0)),
       'cj': ('(vm::ct_variable<0>() - vm::ct_constant<5000000007L>())', None, lambda p: Expr.Bin(Op.MINUS, V0, K(5000000007)))}
RTK = ['E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI', 'd', 'l', 'i']
def op_post(op, ka, kb):
    tag = getattr(Op, OPN[op][1])
    def post(c, o):
        P = ('P03',); must_return(c, o, P)
        R = c.tree(o)
        a, b = [operand(c, k, n) for k, n in ((ka, 'a'), (kb, 'b'))]
        S = Expr.Bin(tag, spec(a), spec(b))
        if ka in CTB or kb in CTB or (ka in CTK and kb in CTK):
            e = z3.Const('envA', L.EnvS)
            c.ob(o, P, 'denotes the operation on the operands', z3.Implies(L.wd(S, e), L.ev(R, e) == L.ev(S, e)))
            c.ob(o, P, 'is evaluable where both operands are', z3.Implies(z3.And(L.evok(S, e), L.wd(S, e)), L.evok(R, e)))
            return
        g = z3.And(Expr.is_Bin(R), sub(R, 'bop') == tag, same(sub(R, 'blhs'), a), same(sub(R, 'brhs'), b))
        if a.num is not None and b.num is not None:
            g = z3.Or(g, leafval(R, L.ev(S, L.env0)))
        c.ob(o, P, 'is the operation on the operands in their order', g)
    return post
def operand(c, k, n):
    if k in CTK:
        t, v = CTK[k][2](None); return Arg(k, [], None, v) if t == 'num' else Arg(k, [], v)
    if k in CTB: return Arg(k, [], CTB[k][2](c.a[n].num if CTB[k][1] else None))
    return c.a[n]
def text(k, n):
    if k in CTK: return CTK[k][0]
    if k in CTB: return CTB[k][0] % n if CTB[k][1] else CTB[k][0]
    return n
def par(k, n):
    if k in CTK: return ''
    if k in CTB: return '%s:%s' % (CTB[k][1], n) if CTB[k][1] else ''
    return '%s:%s' % (k, n)
def w_ops(op):
    ks = RTK + list(CTK) + [k for k in CTB if not CTB[k][1]]; out = []
    num = {'d', 'l', 'i'}
    for a in ks:
        for b in ks:
            if a in num and b in num: continue
            if a in ('cx', 'cd', 'ct', 'ci', 'cj') and b[0] == 'c' and b not in ('cc', 'cv') or b in ('cx', 'cd', 'ct', 'ci', 'cj') and a[0] == 'c' and a not in ('cc', 'cv'): continue
            if op in '+-' and (a in ('C', 'CL', 'CI') and b in ('cp', 'cn')): continue      # evaluated (w_opsv)
            out.append(W('%s__%s_%s' % (OPN[op][0], a, b), 'RE', (par(a, 'a') + ' ' + par(b, 'b')).strip(), 'RE(%s %s %s)' % (text(a, 'a'), op, text(b, 'b')), op_post(op, a, b)))
    return out

def w_opsv():
    """combinations of compile-time expressions holding runtime constants: only evaluation is offered"""
    out = []; ks = ['C', 'CL', 'CI'] + list(CTK) + list(CTB)
    for op in '+-*/':
        for a in ks:
            for b in ks:
                if not ('cq' in (a, b) or 'cr' in (a, b) or (a in ('C', 'CL', 'CI') and b in CTB) or (b in ('C', 'CL', 'CI') and a in CTB)): continue
                out.append(W('v%s__%s_%s' % (OPN[op][0], a, b), 'double', (par(a, 'a') + ' ' + par(b, 'b') + ' PV:p').strip(), '(%s %s %s)(p)' % (text(a, 'a'), op, text(b, 'b')), opsv_post(op, a, b), pre=small))
    return out
def small(c):
    """integer constants whose sum with a small literal is representable"""
    for a in c.a.values():
        if a.kind in ('CL', 'CI'):
            v = a.term.arg(0); m = 1 << (v.size() - 2); c.x.assume(c.st0, z3.And(v > -m, v < m))
def opsv_post(op, ka, kb):
    tag = getattr(Op, OPN[op][1])
    def post(c, o):
        P = ('P03',); e = c.a['p'].env
        S = Expr.Bin(tag, spec(operand(c, ka, 'a')), spec(operand(c, kb, 'b')))
        if o.kind == 'throw': c.ob(o, P, 'raises only where there is no value', z3.Not(z3.And(L.evok(S, e), L.wd(S, e)))); return
        must_return(c, o, P)
        c.ob(o, P, 'evaluates to the operation on the operands', z3.Implies(z3.And(L.evok(S, e), L.wd(S, e)), c.x.real(o.val) == L.ev(S, e)))
    return post

# ------------------------------------------------------------------ P03: elementary functions of an operand
FUNS = [('exp', 'EXP'), ('sin', 'SIN'), ('cos', 'COS'), ('tan', 'TAN'), ('fabs', 'FABS'), ('sqrt', 'SQRT'), ('log', 'LOG'), ('log10', 'LOG10'), ('grad', 'GRAD'), ('div', 'DIVG')]
def w_funs():
    out = []
    for f, tag in FUNS:
        for k in ['E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI', 'cv', 'cw', 'cc', 'ck', 'cb', 'cp']:
            out.append(W('f_%s__%s' % (f, k), 'RE', par(k, 'a'), 'RE(vm::%s(%s))' % (f, text(k, 'a')), fun_post(getattr(Op, tag), k)))
    def lap(c, o):
        P = ('P03',); must_return(c, o, P); R = c.tree(o)
        c.ob(o, P, 'the Laplace operator is the divergence of the gradient', R == Expr.Un(Op.DIVG, Expr.Un(Op.GRAD, c.a['a'].term)))
    out.append(W('f_laplace__F', 'RE', 'F:a', 'RE(vm::laplace(a))', lap))
    return out
def fun_post(tag, k):
    def post(c, o):
        P = ('P03',); must_return(c, o, P); R = c.tree(o); a = operand(c, k, 'a')
        g = z3.And(Expr.is_Un(R), sub(R, 'uop') == tag)
        if k in CTB: g = z3.And(g, sub(R, 'uarg') == a.term)
        else: g = z3.And(g, same(sub(R, 'uarg'), a))
        c.ob(o, P, 'is exactly this function of the operand', g)
    return post

# ------------------------------------------------------------------ P01, P02: evaluation front ends
def envN(*ns):
    def f(c):
        e = z3.Const('pt', L.EnvS); fs = [L.envsize(e) == len(ns)]
        for i, n in enumerate(ns):
            fs.append(L.envget(e, z3.BitVecVal(i, 64)) == c.a[n].num)
        return e, fs
    return f
POINTS = {'d': ('d:x', 'x', lambda c: (L.env1(c.a['x'].num), [])), 'C': ('C:q', 'q', lambda c: (L.env1(c.a['q'].num), [])),
          'CL': ('CL:q', 'q', lambda c: (L.env1(c.a['q'].num), [])), 'CI': ('CI:q', 'q', lambda c: (L.env1(c.a['q'].num), [])),
          'cc': ('', 'vm::ct_constant<3>()', lambda c: (L.env1(L.rv(3)), [])), 'cm': ('', 'vm::ct_constant<-8>()', lambda c: (L.env1(L.rv(-8)), [])), 'ck': ('', 'vm::ct_constant<5000000001L>()', lambda c: (L.env1(L.rv(5000000001)), [])),
          'P': ('P:p', 'p', lambda c: (c.a['p'].env, [])), 'PV': ('PV:p', 'p', lambda c: (c.a['p'].env, [])),
          'v1': ('d:x', 'vm::ct_vector_1<double>(x)', envN('x')), 'v2': ('d:x d:y', 'vm::ct_vector_2<double,double>(x,y)', envN('x', 'y')),
          'v3': ('d:x d:y d:z', 'vm::ct_vector_3<double,double,double>(x,y,z)', envN('x', 'y', 'z')),
          'w2': ('', 'vm::ct_vector_2<vm::ct_constant<7>,vm::ct_constant<-9>>(vm::ct_constant<7>(),vm::ct_constant<-9>())', None),
          'w1': ('', 'vm::ct_vector_1<vm::ct_constant<7>>(vm::ct_constant<7>())', None), 'w3': ('', 'vm::make_vector(vm::ct_constant<7>(), vm::ct_constant<-9>(), vm::ct_constant<4>())', None), 'm1': ('d:x', 'vm::make_vector(x)', envN('x')), 'm2': ('d:x d:y', 'vm::make_vector(x,y)', envN('x', 'y')),
          'm3': ('d:x d:y d:z', 'vm::make_vector(x,y,z)', envN('x', 'y', 'z'))}
def ctpt(*vs):
    def f(c):
        e = z3.Const('pt', L.EnvS)
        return e, [L.envsize(e) == len(vs)] + [L.envget(e, z3.BitVecVal(i, 64)) == v for i, v in enumerate(vs)]
    return f
for _n, _v in (('w1', (7,)), ('w2', (7, -9)), ('w3', (7, -9, 4))): POINTS[_n] = POINTS[_n][:2] + (ctpt(*_v),)
def eval_post(T, pt, P, scalar_assert=False, fold=()):
    def post(c, o):
        s = o.st; t = T(c); e, fs = POINTS[pt][2](c)
        for f in fs: c.x.assume(s, f)
        ok = L.evok(t, e)
        if o.kind == 'abort' and scalar_assert: c.ob(o, P, 'assertion only for an index out of range', z3.Not(ok)); return
        if o.kind == 'throw':
            if IDX_EXC in str(o.val[0]): c.ob(o, P, 'index exception only for an out-of-range variable', z3.Not(ok))
            else: c.ob(o, P, 'another exception only when the expression has a part without numeric value', z3.Not(L.numeric(t)))
            return
        must_return(c, o, P)
        c.ob(o, P, 'a number only when every part has a value', ok)
        c.ob(o, tuple(p for p in P if p != 'P02') or P, 'result is the mathematical value', z3.Implies(L.wd(t, e) if fold else True, c.x.real(o.val) == L.ev(t, e)))
        U.leaks(c.x, s, set())
    return post
def w_eval():
    out = []; P = ('P01', 'P02')
    for k in ['E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI', 'cv', 'cw', 'cc', 'ck']:
        for p, (prm, tx, _) in POINTS.items():
            T = lambda c, k=k: spec(operand(c, k, 'a'))
            out.append(W('ev__%s_%s' % (k, p), 'double', (par(k, 'a') + ' ' + prm).strip(), '%s(%s)' % (text(k, 'a'), tx), eval_post(T, p, P, k == 'V')))
            out.append(W('evf__%s_%s' % (k, p), 'double', (par(k, 'a') + ' ' + prm).strip(), 'vm::eval(%s, %s)' % (text(k, 'a'), tx), eval_post(T, p, P, k == 'V')))
    for i in (0, 1, 2, 3, 7, 12):
        for p, (prm, tx, _) in POINTS.items():
            for u, cl in (('ev', 'vm::ct_variable<%d>()(%s)'), ('evf', 'vm::eval(vm::ct_variable<%d>(), %s)')): out.append(W('%s__cv%d_%s' % (u, i, p), 'double', prm, cl % (i, tx), eval_post(lambda c, i=i: Expr.Var(z3.BitVecVal(i, 64)), p, P)))
    for k in ('d', 'l'):
        for p in ('P', 'v2'):
            prm, tx, _ = POINTS[p]
            out.append(W('evf__%s_%s' % (k, p), 'double', (k + ':a ' + prm).strip(), 'vm::eval(a, %s)' % tx, eval_post(lambda c: spec(c.a['a']), p, P)))
    return out

# ------------------------------------------------------------------ results that went through simplification
def simplified_of(c, o, P, R, ts, P7=None):
    """R is one of the trees ts after simplification to completion"""
    e = z3.Const('envA', L.EnvS); P7 = P7 or P; ts = ts if isinstance(ts, list) else [ts]
    def fs(t): return [(P, 'the returned expression has the value of the specified one', z3.Implies(L.wd(t, e), z3.And(L.ev(R, e) == L.ev(t, e), L.wd(R, e)))),
                       (P, 'the returned expression is evaluable where the specified one is', z3.Implies(L.evok(t, e), L.evok(R, e))),
                       (P7, 'nothing is left to simplify', z3.Not(L.cs(R))),
                       (P7, 'a constant expression becomes one constant', z3.Implies(L.isconst(t), isleafconst(R))),
                       (P, 'an expression with nothing to simplify is returned as it is', z3.Implies(z3.Not(L.cs(t)), R == t))]
    if len(ts) == 1:
        for p, n, g in fs(ts[0]): c.ob(o, p, n, g)
    else: c.ob(o, P, 'the returned expression is the simplified specified one', z3.Or([z3.And([g for p, n, g in fs(t)]) for t in ts]))

# ------------------------------------------------------------------ P04: substitution front ends
def w_subst():
    out = []; P = ('P04',)
    def post(k, r):
        def f(c, o):
            must_return(c, o, P); R = c.tree(o)
            r = c.a['r']
            simplified_of(c, o, P, R, [L.subst(c.a['e'].term, c.a['s'].term, t) for t in ([spec(r), r.term] if r.kind in ('CL', 'CI') else [spec(r)])])
        return f
    for k in ['V', 'F', 'U', 'B', 'E']:
        for r in ['E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI', 'd']:
            for t in ('E', 'B', 'U') if k == 'V' else ('E',):
                out.append(W('sub__%s_%s_%s' % (k, r, t), 'RE', '%s:s %s:r %s:e' % (k, r, t), 'vm::substitute(s, r, e)', post(k, r)))
    return out

# ------------------------------------------------------------------ P06, P07: simplification front ends
def w_subsym():
    P = ('P04',); out = []
    for k in ('N',):
        def pre(c): c.x.functor_spec = L.symF(c.a['s'].id, c.a['i'].sides[0], c.a['i'].sides[1], c.a['v'].term.arg(0))
        def post(c, o):
            must_return(c, o, P); R = c.tree(o)
            c.ob(o, P, 'exactly the integrals over the symbolic interval become integrals over the given interval and variable', R == L.manip(c.x.functor_spec, c.a['e'].term))
        out.append(W('subsym__E', 'RE', 'SI:s N:i V:v E:e', 'vm::substitute(s, std::make_pair(i, v), e)', post, pre=pre))
        out.append(W('subsym2__E', 'RE', 'SI:s N:i V:v E:e', 'std::pair<RI, RV> p(i, v); return vm::substitute(s, p, e);', post, pre=pre))
    return out
def w_simp():
    out = []
    def post(c, o):
        must_return(c, o, ('P06', 'P07')); R = c.tree(o)
        simplified_of(c, o, ('P06',), R, spec(c.a['e']), ('P07',))
    for k in ('E', 'U', 'B'):
        out.append(W('simp__' + k, 'RE', k + ':e', 'vm::simplify(e)', post))
        out.append(W('isimp__' + k, 'RE', k + ':e', 'RE t(e); vm::inplace_simplify(t); return t;', post))
    def ident(c, o):
        must_return(c, o, ('P06', 'P07')); R = c.tree(o); c.ob(o, ('P06', 'P07'), 'a primitive operand is returned as it is', same(R, c.a['e']))
    for k in ('V', 'F', 'C', 'CL', 'CI'):
        out.append(W('simp__' + k, 'RE', k + ':e', 'RE(vm::simplify(e))', ident))
        ty = {'V': 'RV', 'F': 'RF', 'C': 'RC', 'CL': 'RCL', 'CI': 'RCI'}[k]
        out.append(W('isimp__' + k, 'RE', k + ':e', '%s t(e); vm::inplace_simplify(t); return RE(t);' % ty, ident))
    return out

# ------------------------------------------------------------------ P08, P09: differentiation front ends
def w_diff():
    out = []
    def post(P, var, structural=None):
        def f(c, o):
            e, v = c.a['e'], var(c); t = spec(e); ok = L.difok(t, v)
            if o.kind == 'throw': c.ob(o, P, 'differentiation raises only where no rule exists', z3.Not(ok)); return
            must_return(c, o, P); R = c.tree(o)
            if structural: c.ob(o, P, 'derivative of this operand', structural(c, R)); return
            en = z3.Const('envA', L.EnvS)
            c.ob(o, P, 'differentiation succeeds only where a rule exists', ok)
            c.ob(o, P, 'derivative has the analytic value', z3.Implies(L.dwd(t, en), z3.And(L.ev(R, en) == L.dv(t, v, en), L.wd(R, en))))
            c.ob(o, ('P08',) if 'P08' in P else P, 'derivative is evaluable where the expression is', z3.Implies(L.evok(t, en), L.evok(R, en)))
            c.ob(o, P, 'nothing is left to simplify in the derivative', z3.Not(L.cs(R)))
        return f
    vv = lambda c: c.a['v'].term
    for k in ('E', 'U', 'B'):
        out.append(W('dif__%s_V' % k, 'RE', k + ':e V:v', 'vm::diff(e, v)', post(('P08',), vv)))
        for n in CVIDS: out.append(W('dif__%s_cv%d' % (k, n), 'RE', k + ':e', 'vm::diff(e, vm::ct_variable<%d>())' % n, post(('P08',), lambda c, n=n: cvar(n))))
        out.append(W('dif__%s_F' % k, 'RE', k + ':e F:v', 'vm::diff(e, v)', post(('P09',), vv)))
    for k in ('C', 'CL', 'CI', 'd'):
        out.append(W('dif__%s_V' % k, 'RE', k + ':e V:v', 'RE(vm::diff(e, v))', post(('P08',), vv, lambda c, R: leafval(R, L.rv(0)))))
    out.append(W('dif__F_V', 'RE', 'F:e V:v', 'vm::diff(e, v)', post(('P09',), vv, lambda c, R: R == Expr.Un(Op.PD(c.a['v'].term.arg(0)), c.a['e'].term))))
    for n in CVIDS: out.append(W('dif__F_cv%d' % n, 'RE', 'F:e', 'vm::diff(e, vm::ct_variable<%d>())' % n, post(('P09',), lambda c, n=n: cvar(n), lambda c, R, n=n: R == Expr.Un(Op.PD(cvar(n).arg(0)), c.a['e'].term))))
    out.append(W('dif__F_F', 'RE', 'F:e F:v', 'vm::diff(e, v)', post(('P09',), vv, lambda c, R: leafval(R, z3.If(c.a['e'].term == c.a['v'].term, L.rv(1), L.rv(0))))))
    return out

# ------------------------------------------------------------------ P05: list substitution
def w_substL():
    P = ('P05',)
    def pre(c): c.x.assume(c.st0, L.vlen(c.a['s'].vec) == L.vlen(c.a['r'].vec))
    def post(c, o):
        must_return(c, o, P); R = c.tree(o)
        simplified_of(c, o, P, R, L.substL(c.a['e'].term, L.lof(c.a['s'].vec), L.lof(c.a['r'].vec)))
    return [W('subL__E', 'RE', 'REV:s REV:r E:e', 'vm::substitute(s, r, e)', post, pre=pre)]

# ------------------------------------------------------------------ P11: copies, conversions, assignments
RETT = {'B': 'RB', 'U': 'RU', 'V': 'RV', 'F': 'RF', 'C': 'RC', 'CL': 'RCL', 'CI': 'RCI', 'X': 'VE'}
def w_copy():
    out = []; P = ('P11',); ev_ = z3.Const('envA', L.EnvS)
    def conv(k):
        def f(c, o): must_return(c, o, P); R = c.tree(o); a = operand(c, k, 'a'); c.ob(o, P, 'is the same tree as the source', R == a.term if a.num is None or k in RETT else same(R, a))
        return f
    for k in ['E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI', 'X', 'd', 'cc', 'ck', 'cv', 'cw', 'cm']:
        out.append(W('toE__' + k, 'RE', par(k, 'a'), 'RE(%s)' % text(k, 'a'), conv(k)))
        out.append(W('asE__' + k, 'void', ('EM:t ' + par(k, 'a')).strip(), 't = %s' % text(k, 'a'), asg('t', 'expr', lambda c, R, k=k: conv_eq(c, R, k))))
        out.append(W('asEn__' + k, 'void', ('EN:t ' + par(k, 'a')).strip(), 't = %s' % text(k, 'a'), asg('t', 'expr', lambda c, R, k=k: conv_eq(c, R, k))))
    out.append(W('toE__p', 'RE', 'I:a', 'RE(a->clone())', conv('I')))
    out.append(W('asE__p', 'void', 'EM:t I:a', 't = a->clone()', asg('t', 'expr', lambda c, R: R == c.a['a'].term)))
    def isnull(c, o):
        must_return(c, o, P); v = o.st.blocks[(c.out or c.a['t'].vals[0]).b].cells.get(c.x.con.accessor('expr', 0))
        c.ob(o, P, 'a copy of an empty expression is empty', v is not None and v[1] == NULL); U.leaks(c.x, o.st, set())
    out.append(W('toE__E0', 'RE', 'E0:a', 'RE(a)', isnull)); out.append(W('asE__E0', 'void', 'EM:t E0:a', 't = a', isnull)); out.append(W('dflt__E', 'RE', '', 'RE()', isnull))
    # self assignment and assignment of a part of the target to the target
    T = lambda c: c.a['t'].term
    out.append(W('asE__self', 'void', 'EM:t', 't = t', asg('t', 'expr', lambda c, R: R == T(c))))
    for k, h in (('RB', 'Bin'), ('RU', 'Un'), ('RV', 'Var'), ('RC', 'Const'), ('RF', 'Fun'), ('VE', 'Vec')):
        out.append(W('asE__self' + h, 'void', 'EM:t', 't = *dynamic_cast<%s const*>(t.get())' % k, asg('t', 'expr', lambda c, R: R == T(c)), pre=is_(('t', h))))
    out.append(W('asE__lhs', 'void', 'EM:t', 't = *dynamic_cast<RB const*>(dynamic_cast<RB const*>(t.get())->lhs())', asg('t', 'expr', lambda c, R: R == Expr.blhs(T(c))),
        pre=lambda c: c.x.assume(c.st0, z3.And(Expr.is_Bin(T(c)), Expr.is_Bin(Expr.blhs(T(c)))))))
    out.append(W('asE__rhsclone', 'void', 'EM:t', 't = dynamic_cast<RB const*>(t.get())->rhs()->clone()', asg('t', 'expr', lambda c, R: R == Expr.brhs(T(c))), pre=is_(('t', 'Bin'))))
    z = z3.BitVecVal(0, 64)
    out.append(W('asE__comp', 'void', 'EM:t', 't = (*dynamic_cast<VE const*>(t.get()))[0]', asg('t', 'expr', lambda c, R: R == L.vget(Expr.vec(T(c)), z)),
        pre=lambda c: c.x.assume(c.st0, z3.And(Expr.is_Vec(T(c)), L.vlen(Expr.vec(T(c))) != 0))))
    # node classes by value
    for k in RETT:
        def f(c, o): must_return(c, o, P); R = c.object(o); c.ob(o, P, 'the copy is the same tree as the source', R == c.a['a'].term)
        out.append(W('cp__' + k, RETT[k], k + ':a', '%s(a)' % RETT[k], f))
    for k in 'BUVFX':
        out.append(W('as%s__%s' % (k, k), 'void', '%sM:t %s:a' % (k, k), 't = a', asg('t', None, lambda c, R: R == c.a['a'].term)))
        out.append(W('as%s__self' % k, 'void', '%sM:t' % k, 't = t', asg('t', None, lambda c, R: R == c.a['t'].term)))
    out.append(W('asC__C', 'void', 'CM:t C:a', 't = a', asg('t', None, lambda c, R: R == c.a['a'].term)))
    def value(h, kd):
        def g(c, R):
            v = operand(c, kd, 'a').num
            return z3.And(getattr(Expr, 'is_' + h)(R), L.evok(R, ev_), L.ev(R, ev_) == v)
        return g
    for k in ('C', 'CL', 'CI', 'd', 'cc', 'ck'):
        out.append(W('asB__' + k, 'void', ('BM:t ' + par(k, 'a')).strip(), 't = %s' % text(k, 'a'), asg('t', None, value('Bin', k), 'the value of the constant')))
        out.append(W('asU__' + k, 'void', ('UM:t ' + par(k, 'a')).strip(), 't = %s' % text(k, 'a'), asg('t', None, value('Un', k), 'the value of the constant')))
    for k in ('V', 'C', 'CL', 'CI'):
        def f(c, o, k=k): must_return(c, o, P); R = c.object(o); a = c.a['a']; c.ob(o, P, 'is the identity of the source', R == Expr.Un(Op.ID, a.term))
        out.append(W('toU__' + k, 'RU', k + ':a', 'RU(a)', f))
    def f(c, o): must_return(c, o, P); R = c.object(o); c.ob(o, P, 'is the identity of the source', R == Expr.Un(Op.ID, c.a['a'].term))
    out.append(W('toU__p', 'RU', 'I:a', 'RU(a->clone())', f))
    for side in ('lhs', 'rhs'):
        out.append(W('asB__' + side, 'void', 'BM:t', 't = *dynamic_cast<RB const*>(t.%s())' % side, asg('t', None, lambda c, R, s=side: R == getattr(Expr, 'b' + s)(T(c))),
            pre=lambda c, s=side: c.x.assume(c.st0, Expr.is_Bin(sub(T(c), 'b' + s)))))
        out.append(W('asBC__' + side, 'void', 'BM:t', 't = *dynamic_cast<RC const*>(t.%s())' % side, asg('t', None, lambda c, R, s=side: L.ev(R, ev_) == L.ev(sub(T(c), 'b' + s), ev_), 'the value of the constant'),
            pre=lambda c, s=side: c.x.assume(c.st0, Expr.is_Const(sub(T(c), 'b' + s)))))
    out.append(W('asU__lhs', 'void', 'UM:t', 't = *dynamic_cast<RU const*>(t.lhs())', asg('t', None, lambda c, R: R == sub(T(c), 'uarg')), pre=lambda c: c.x.assume(c.st0, Expr.is_Un(sub(T(c), 'uarg')))))
    out.append(W('asUC__lhs', 'void', 'UM:t', 't = *dynamic_cast<RC const*>(t.lhs())', asg('t', None, lambda c, R: L.ev(R, ev_) == L.ev(sub(T(c), 'uarg'), ev_), 'the value of the constant'), pre=lambda c: c.x.assume(c.st0, Expr.is_Const(sub(T(c), 'uarg')))))
    out.append(W('mkX', 'VE', 'ul:n', 'VE(n)', newvec)); out.append(W('mkF2', 'RF', 'ul:n ul:m', 'RF(n, m)', lambda c, o: (must_return(c, o, P), c.ob(o, P, 'keeps number and family', c.object(o) == Expr.Fun(c.a['n'].vals[0], c.a['m'].vals[0])))))
    out.append(W('mkV', 'RV', 'ul:n', 'RV(n)', lambda c, o: (must_return(c, o, P), c.ob(o, P, 'keeps the number', c.object(o) == Expr.Var(c.a['n'].vals[0])))))
    out.append(W('mkC', 'RC', 'd:n', 'RC(n)', lambda c, o: (must_return(c, o, P), c.ob(o, P, 'keeps the value', c.object(o) == Expr.Const(c.a['n'].num)))))
    out.append(W('mkCL', 'RCL', 'l:n', 'RCL(n)', lambda c, o: (must_return(c, o, P), c.ob(o, P, 'keeps the value', c.object(o) == Expr.ConstL(c.a['n'].vals[0])))))
    out.append(W('mkCI', 'RCI', 'i:n', 'RCI(n)', lambda c, o: (must_return(c, o, P), c.ob(o, P, 'keeps the value', c.object(o) == Expr.ConstI(c.a['n'].vals[0])))))
    return out
def newvec(c, o):
    must_return(c, o, ('P11',)); R = c.object(o); k = z3.Const('comp', L.BV64); s = o.st.fork()
    c.ob(o, ('P11',), 'a new vector has the requested length', z3.And(Expr.is_Vec(R), L.vlen(sub(R, 'vec')) == c.a['n'].vals[0]))
    s.pc.append(z3.ULT(k, c.a['n'].vals[0])); c.x.oblige(s, ('P11',), 'the components of a new vector are zero', leafval(L.vget(sub(R, 'vec'), k), L.rv(0)))
def is_(*cs):
    def f(c):
        for n, h in cs: c.x.assume(c.st0, getattr(Expr, 'is_' + h)(c.a[n].term))
    return f
def conv_eq(c, R, k):
    a = operand(c, k, 'a'); return R == a.term if a.num is None or k in RETT else same(R, a)
def asg(n, head, g, msg='the same tree as the source', P=('P11',)):
    """postcondition of an assignment to the mutable argument n"""
    def post(c, o):
        must_return(c, o, P); p = c.a[n].vals[0]
        R = c.parts(o, head, 1, p)[0] if head else c.object(o, p)
        if R is None: c.ob(o, P, 'the target is not empty', False); return
        c.ob(o, P, 'the target holds ' + msg, g(c, R))
    return post

# ------------------------------------------------------------------ P15: vector operators
def w_vec():
    out = []; P = ('P15',); k = z3.Const('comp', L.BV64)
    eqlen = lambda c: c.x.assume(c.st0, L.vlen(c.a['a'].term.arg(0)) == L.vlen(c.a['b'].term.arg(0)))
    def comp(f, w):
        def post(c, o):
            must_return(c, o, P); R = c.object(o); v = w(c); s = o.st.fork()
            c.ob(o, P, 'the result is a vector of the same length', z3.And(Expr.is_Vec(R), L.vlen(sub(R, 'vec')) == L.vlen(v)))
            s.pc.append(z3.ULT(k, L.vlen(v))); c.x.oblige(s, P, 'each component is the operation on the components', f(c, L.vget(sub(R, 'vec'), k)))
        return post
    va = lambda c: c.a['a'].term.arg(0)
    vb = lambda c: c.a['b'].term.arg(0)
    for op, t in (('+', Op.PLUS), ('-', Op.MINUS)):
        out.append(W('vec%s__X_X' % OPN[op][0], 'VE', 'X:a X:b', 'a %s b' % op, comp(lambda c, r, t=t: r == Expr.Bin(t, L.vget(va(c), k), L.vget(vb(c), k)), va), pre=eqlen))
    for op, t in (('*', Op.MULT), ('/', Op.DIVI)):
        for kd in ['E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI', 'd', 'i', 'cc', 'ck', 'cv', 'cw']:
            def right(c, r, t=t, kd=kd): return z3.And(Expr.is_Bin(r), sub(r, 'bop') == t, sub(r, 'blhs') == L.vget(va(c), k), same(sub(r, 'brhs'), operand(c, kd, 'b')))
            def left(c, r, t=t, kd=kd): return z3.And(Expr.is_Bin(r), sub(r, 'bop') == t, sub(r, 'brhs') == L.vget(vb(c), k), same(sub(r, 'blhs'), operand(c, kd, 'a')))
            out.append(W('vec%s__X_%s' % (OPN[op][0], kd), 'VE', ('X:a ' + par(kd, 'b')).strip(), 'a %s %s' % (op, text(kd, 'b')), comp(right, va)))
            out.append(W('vec%s__%s_X' % (OPN[op][0], kd), 'VE', (par(kd, 'a') + ' X:b').strip(), '%s %s b' % (text(kd, 'a'), op), comp(left, vb)))
    def dot(c, o):
        bad = z3.Or(L.vlen(va(c)) != L.vlen(vb(c)), L.vlen(va(c)) == 0)
        if o.kind == 'abort': c.ob(o, P, 'assertion fails only for vectors of different or zero length', bad); return
        must_return(c, o, P); R = c.tree(o); e = z3.Const('envA', L.EnvS)
        c.ob(o, P, 'the product is the sum of the products of the components', z3.Implies(L.vwdot(e, va(c), vb(c)), L.ev(R, e) == L.vdot(e, va(c), vb(c))))
        c.ob(o, P, 'the product is defined where the products of the components are', z3.Implies(L.vwdot(e, va(c), vb(c)), L.wd(R, e)))
    out.append(W('vecdot', 'RE', 'X:a X:b', 'a * b', dot))
    return out

# ------------------------------------------------------------------ P26: equations and intervals
def w_sides():
    out = []; P = ('P26',); ks = ['E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI', 'd', 'cc', 'ck', 'cv', 'cw', 'cb', 'cp']
    def two(head, g):
        def post(c, o):
            must_return(c, o, P); ts = c.parts(o, head, 2); a, b = g(c)
            if None in ts: c.ob(o, P, 'both sides are set', False); return
            c.ob(o, P, 'keeps the left (lower) side', same(ts[0], a)); c.ob(o, P, 'keeps the right (upper) side', same(ts[1], b))
        return post
    for a in ks:
        for b in ks:
            g = lambda c, a=a, b=b: (operand(c, a, 'a'), operand(c, b, 'b')); prm = (par(a, 'a') + ' ' + par(b, 'b')).strip(); ta, tb = text(a, 'a'), text(b, 'b')
            out.append(W('mkeq__%s_%s' % (a, b), 'RQ', prm, 'vm::make_equation(%s, %s)' % (ta, tb), two('eqn', g)))
            out.append(W('mkiv__%s_%s' % (a, b), 'RI', prm, 'vm::make_interval(%s, %s)' % (ta, tb), two('ivl', g)))
            out.append(W('eq__%s_%s' % (a, b), 'RQ', prm, 'RQ(%s, %s)' % (ta, tb), two('eqn', g)))
            out.append(W('iv__%s_%s' % (a, b), 'RI', prm, 'RI(%s, %s)' % (ta, tb), two('ivl', g)))
    side = lambda n: lambda c: [Arg('E', [], t) for t in c.a[n].sides]
    out.append(W('cpeq', 'RQ', 'Q:a', 'RQ(a)', two('eqn', side('a')))); out.append(W('cpiv', 'RI', 'N:a', 'RI(a)', two('ivl', side('a'))))
    out.append(W('dfiv', 'RI', '', 'RI()', two('ivl', lambda c: (Arg('d', [], None, L.rv(0)), Arg('d', [], None, L.rv(1))))))
    def asg2(head, src):
        def post(c, o):
            must_return(c, o, P); ts = c.parts(o, head, 2, c.a['t'].vals[0])
            if None in ts: c.ob(o, P, 'both sides are set', False); return
            for i, w in ((0, 'left (lower)'), (1, 'right (upper)')): c.ob(o, P, 'assignment keeps the %s side' % w, ts[i] == c.a[src].sides[i])
            if o.val is not None and 'ret' in c.W.uid: c.ob(o, P, 'assignment returns the target', isinstance(o.val, Ptr) and o.val.b == c.a['t'].vals[0].b)
        return post
    out.append(W('aseq', 'void', 'QM:t Q:a', 't = a', asg2('eqn', 'a'))); out.append(W('asiv', 'void', 'NM:t N:a', 't = a', asg2('ivl', 'a')))
    out.append(W('aseqself', 'void', 'QM:t', 't = t', asg2('eqn', 't'))); out.append(W('asivself', 'void', 'NM:t', 't = t', asg2('ivl', 't')))
    out.append(W('asivret', 'RI const&', 'NM:t N:a', 't = a', asg2('ivl', 'a')))
    for h, k, f in (('eqn', 'Q', ('lhs', 'rhs')), ('ivl', 'N', ('lower', 'upper'))):
        for i in (0, 1):
            def get(c, o, i=i): must_return(c, o, P); R = c.tree(o); c.ob(o, P, 'accessor returns its side', R == c.a['a'].sides[i])
            out.append(W('get_%s_%d' % (h, i), 'RE', k + ':a', 'RE(a.%s())' % f[i], get))
    return out

# ------------------------------------------------------------------ P24: coordinate systems
def fun_tag(c, n):
    r = c.x.call_function(c.st0.fork(), 'w__' + n, []); return c.x.bv(r[0].val)
def w_coords():
    out = []; P = ('P24',); X = ['aux unsigned long w__tagu() { return vm::unknown_tag<>::tag_id(); }', 'aux unsigned long w__tagt() { return vm::test_tag<>::tag_id(); }']
    z = lambda i: z3.BitVecVal(i, 64)
    def chain(c, st, t, dim, R):
        """gradients, then divergences, of the unknown and of the test function replaced one after the other; each result simplified"""
        us = [Expr.Fun(z(0), fun_tag(c, n)) for n in ('tagu', 'tagt')]
        pd = lambda u, i: Expr.Un(Op.PD(z(i)), u)
        pairs = []
        for i, u in enumerate(us):
            if dim == 1: g = pd(u, 0)
            else:
                v = z3.Const('gradvec%d' % i, L.VecS); g = Expr.Vec(v); c.x.assume(st, L.vlen(v) == dim)
                for k in range(dim): c.x.assume(st, L.vget(v, z(k)) == pd(u, k))
            pairs.append((Expr.Un(Op.GRAD, u), g))
        for u in us:
            d = pd(u, 0)
            for k in range(1, dim): d = Expr.Bin(Op.PLUS, d, pd(u, k))
            pairs.append((Expr.Un(Op.DIVG, u), d))
        # the four rules do not overlap: any order is the same specification
        for perm in itertools.permutations(range(4)):
            s = t
            for i in perm: s = L.simpfix(L.subst(s, *pairs[i]))
            first = s if perm == (0, 1, 2, 3) else first
            if c.x.valid(st, R == s): return s
        return first
    def distinct(c, o): must_return(c, o, P); c.ob(o, P, 'unknown and test functions are different families', fun_tag(c, 'tagu') != fun_tag(c, 'tagt')); 
    out.append(W('tags', 'unsigned long', '', 'vm::unknown_tag<>::tag_id()', distinct))
    for tg, n in (('unknown_tag', 'tagu'), ('test_tag', 'tagt')):
        out.append(W('mk_' + n, 'RF', 'ul:n', 'RF(n, vm::%s<>())' % tg, lambda c, o, n=n: (must_return(c, o, P), c.ob(o, P, 'a function symbol belongs to the family of its tag', c.object(o) == Expr.Fun(c.a['n'].vals[0], fun_tag(c, n))))))
    for d in (1, 2, 3):
        for k in ('E', 'U', 'B'):
            def post(c, o, d=d): must_return(c, o, P); R = c.tree(o); c.ob(o, P, 'every gradient and divergence is replaced, everything else is unchanged', R == chain(c, o.st, c.a['e'].term, d, R))
            out.append(W('coord%d__%s' % (d, k), 'RE', k + ':e', 'vm::apply_coordinate_system(vm::cartesian<%d>(), e)' % d, post))
        def post(c, o, d=d):
            must_return(c, o, P); ts = c.parts(o, 'eqn', 2)
            if None in ts: c.ob(o, P, 'both sides are set', False); return
            for i in (0, 1): c.ob(o, P, 'side %d: every gradient and divergence is replaced, everything else is unchanged' % i, ts[i] == chain(c, o.st, c.a['e'].sides[i], d, ts[i]))
        out.append(W('coord%d__Q' % d, 'RQ', 'Q:e', 'vm::apply_coordinate_system(vm::cartesian<%d>(), e)' % d, post))
    return out, X

# ------------------------------------------------------------------ P22: compile-time expressions at run time
def ctb(a, op, b): return 'vm::ct_binary_expr<%s, vm::op_%s<double>, %s >' % (a, OPN[op][0], b)
INNER = {1: ctb('vm::ct_variable<701>', '+', 'vm::ct_variable<702>'), 2: ctb('vm::ct_variable<703>', '+', 'vm::ct_variable<704>')}
def inner_term(i):
    return Expr.Bin(z3.Const('inner%d_op' % i, L.Op), z3.Const('inner%d_l' % i, Expr), z3.Const('inner%d_r' % i, Expr))
def inner_hints():
    'calls on the inner operand (any compile-time binary expression) obey the contract being proved'
    hs = []
    for i, (u, v) in ((1, (701, 702)), (2, (703, 704))):
        B = r'ct_binary_expr<viennamath::ct_variable<%d\w*>, viennamath::op_plus<double>, viennamath::ct_variable<%d\w*> ?>' % (u, v)
        def conv(x, st, args, i=i):
            T = inner_term(i); x.assume(st, L.bok(T.arg(0))); p = obj(x, st, T, 'Bin', 'inner', ro=False, owned=True)
            src = st.blocks[p.b]; d = x.deref(st, args[0], 'constructor')
            if d is None: return []
            d = st.w(d.id)
            for o, c in src.cells.items(): d.cells[args[0].off + o] = c
            if not d.cells.get(args[0].off): raise Unsupported('inner operand has no virtual table')
            st.w(p.b).freed = True; st.w(p.b).cells = {}
            return [Outcome(st, 'ret', None)]
        hs.append((re.compile(r'::rt_binary_expr<[^(]*>\(viennamath::' + B + r' const&\)'), conv))
        def ev(x, st, args, i=i):
            T = inner_term(i); b = st.blocks[args[1].b]; e = b.env
            if e is None: raise Unsupported('inner operand at a point of unknown form')
            out = []
            for s2, tv in x.branch(st, L.evok(T, e)):
                out.append(Outcome(s2, 'ret', L.ev(T, e)) if tv else Outcome(s2, 'throw', (IDX_EXC, Opaque('exc'))))
            return out
        hs.append((re.compile(B + r'::operator\(\)<PV>\('), ev))
    return hs
def w_ct():
    out = []; P = ('P22',); hints = {'calls': inner_hints()}
    Z = z3.BitVecVal; rc = lambda v: ('vm::ct_constant<%dL>' % v, Expr.Const(L.rv(v)))
    kinds = {'c3': rc(3), 'cm': rc(-7), 'c0': rc(0), 'cb': rc(5000000007), 'cn': rc(-5000000007), 'v0': ('vm::ct_variable<0>', V0), 'v5': ('vm::ct_variable<5>', Expr.Var(Z(5, 64))), 'v9': ('vm::ct_variable<300>', Expr.Var(Z(300, 64))), 'in1': (INNER[1], None), 'in2': (INNER[2], None)}
    term = lambda k: inner_term(int(k[2])) if k[:2] == 'in' else kinds[k][1]
    def conv(t, n=None, head=None):
        def post(c, o):
            must_return(c, o, P); R = (c.tree(o) if head == 'expr' else c.object(o)) if n is None else (c.parts(o, 'expr', 1, c.a[n].vals[0])[0] if head == 'expr' else c.object(o, c.a[n].vals[0]))
            if R is None: c.ob(o, P, 'the target is not empty', False); return
            c.ob(o, P, 'is the same tree with the same operators, operand order and leaf values', R == t)
        return post
    def val(t):
        def post(c, o):
            e = c.a['p'].env
            if o.kind == 'throw': c.ob(o, P, 'raises only where the expression has no value', z3.Not(L.evok(t, e))); return
            must_return(c, o, P); c.ob(o, P, 'evaluates only where the expression has a value', L.evok(t, e)); c.ob(o, P, 'has the value of the expression', c.x.real(o.val) == L.ev(t, e))
        return post
    todo = []
    for a in kinds:
        for op in OPN:
            for b in kinds:
                if a == 'in2' or b == 'in1' and a[:2] == 'in': continue
                if a[0] == 'c' and b[0] == 'c' and not ('c3' in (a, b) or 'cb' in (a, b)): continue
                todo.append(('%s_%s_%s' % (OPN[op][0], a, b), ctb(kinds[a][0], op, kinds[b][0]), Expr.Bin(getattr(Op, OPN[op][1]), term(a), term(b)), hints))
    # whole nestings, without the inductive contract
    v = lambda i: ('vm::ct_variable<%d>' % i, Expr.Var(Z(i, 64)))
    def bi(a, op, b): return (ctb(a[0], op, b[0]), Expr.Bin(getattr(Op, OPN[op][1]), a[1], b[1]))
    nest = [bi(bi(v(0), '-', v(1)), '/', bi(rc(2), '*', v(2))), bi(v(0), '-', bi(v(1), '-', rc(4))), bi(bi(rc(1), '/', v(3)), '+', rc(9)), bi(bi(bi(v(0), '*', v(0)), '-', rc(1)), '/', bi(v(1), '/', bi(v(2), '-', v(0))))]
    todo += [('nest%d' % i, t[0], t[1], {}) for i, t in enumerate(nest)]
    # every nesting of two and three operations: a rule for a particular shape would be selected here
    k = rc(4); n = 0
    for op in OPN:
        for op2 in OPN:
            for l3 in ((v(0), v(1), v(2)), (k, v(1), v(2)), (v(0), k, v(2)), (v(0), v(1), k)):
                for t in (bi(bi(l3[0], op, l3[1]), op2, l3[2]), bi(l3[0], op2, bi(l3[1], op, l3[2]))):
                    todo.append(('sh%d' % n, t[0], t[1], {})); n += 1
            for op3 in OPN: t = bi(bi(v(0), op, rc(3)), op2, bi(v(1), op3, v(2))); todo.append(('sh%d' % n, t[0], t[1], {})); n += 1
    some = nest + [bi(v(0), '-', v(1)), bi(v(2), '/', v(0)), bi(rc(3), '-', v(1)), bi(v(0), '/', v(0)), bi(v(0), '*', v(0))]
    for i, t in enumerate(some):
        for p_, (prm, tx, _) in POINTS.items():
            if p_ in ('P', 'PV'): continue
            for u, cl in (('ctx', '%s()(%s)'), ('ctxf', 'vm::eval(%s(), %s)')): out.append(W('%s_%d_%s' % (u, i, p_), 'double', prm, cl % (t[0], tx), eval_post(lambda c, T=t[1]: T, p_, P, fold=(1,))))
    for u, t, T, h in todo:
        hard = T.arg(0).eq(Op.PLUS) or T.arg(0).eq(Op.DIVI) or u[:4] == 'nest'
        out.append(W('ctB_' + u, 'RB', '', 'RB(%s())' % t, conv(T), hints=h))
        out.append(W('ctev_' + u, 'double', 'PV:p', '%s()(p)' % t, val(T), hints=h))
        if hard:
            out.append(W('ctE_' + u, 'RE', '', 'RE(%s())' % t, conv(T, None, 'expr'), hints=h))
            out.append(W('ctEa_' + u, 'void', 'EM:t', 't = %s()' % t, conv(T, 't', 'expr'), hints=h))
            out.append(W('ctBa_' + u, 'void', 'BM:t', 't = %s()' % t, conv(T, 't'), hints=h))
            out.append(W('ctevf_' + u, 'double', 'PV:p', 'vm::eval(%s(), p)' % t, val(T), hints=h))
    for k in ('c3', 'cm', 'c0', 'cb', 'cn', 'v0', 'v5', 'v9'):
        t, T = kinds[k]
        out.append(W('ctE_' + k, 'RE', '', 'RE(%s())' % t, conv(T, None, 'expr')))
        out.append(W('ctEa_' + k, 'void', 'EM:t', 't = %s()' % t, conv(T, 't', 'expr')))
        out.append(W('ctev_' + k, 'double', 'PV:p', '%s()(p)' % t, val(T))); out.append(W('ctevf_' + k, 'double', 'PV:p', 'vm::eval(%s(), p)' % t, val(T)))
    return out

# ------------------------------------------------------------------ P23: quadrature
quad = L.F('quad', Expr, L.R); quadok = L.F('quadok', Expr, L.B)
def midpoint(lo, hi, f, v):
    'the one-point rule: value of the integrand at the middle times the signed length; side condition of exactness of the folding'
    a, b = L.ev(lo, L.env0), L.ev(hi, L.env0); m = Expr.Const((a + b) / 2); t = L.subst(f, v, m)
    return L.ev(t, L.env0) * (b - a), t
def w_quad():
    out = []; P = ('P23',)
    def rule(lo, hi, f, v):
        def g(c, o):
            l, h, t0, x = lo(c), hi(c), f(c), v(c); val, t = midpoint(l, h, t0, x); wd = z3.And([L.wd(q, L.env0) for q in (l, h, t)])
            lim = z3.And(L.isconst(l), L.isconst(h))
            if o.kind == 'abort': return 'assertion fails only for limits that are not constant', z3.Not(lim)
            if o.kind == 'throw': return 'raises only for an integrand that does not reduce to a number', z3.Not(z3.And(lim, L.isconst(t)))
            return 'is the one-point rule at the middle of the interval', z3.Implies(z3.And(lim, wd), c.x.real(o.val) == val)
        return g
    def post(*fs):
        g = rule(*fs)
        def p(c, o):
            for x_ in fs[:2]: c.x.assume(o.st, L.isconst(x_(c)))
            n, f = g(c, o); c.ob(o, P, n, f)
        return p
    N = (lambda c: c.a['n'].sides[0], lambda c: c.a['n'].sides[1], lambda c: c.a['e'].term, lambda c: c.a['v'].term)
    def pre(c): c.x.assume(c.st0, z3.And([L.isconst(t) for t in c.a['n'].sides]))
    q = 'vm::numerical_quadrature q(new vm::rt_gauss_quad_1<>());'
    for u, x in (('rule', 'vm::rt_gauss_quad_1<> q; return q.eval(n, e, v);'), ('q3', q + ' return q(n, e, v);'), ('q3copy', q + ' vm::numerical_quadrature q2(q); return q2(n, e, v);'), ('q3as', q + ' vm::numerical_quadrature q2; q2 = q; return q2(n, e, v);')):
        out.append(W('quad_' + u, 'double', 'N:n E:e V:v', x, post(*N), pre=pre))
    for i in CVIDS: out.append(W('quad_q3ct%d' % i, 'double', 'N:n E:e', q + ' return q(n, e, vm::ct_variable<%d>());' % i, post(*N[:3], lambda c, i=i: cvar(i)), pre=pre))
    # integral expressions: the recursive call obeys the contract being proved
    def rec(x, st, args):
        if sum(1 for f in x.stack if 'numerical_quadrature' in x.m.demangled(f) and 'operator()' in x.m.demangled(f)) < 1: return None
        t = x.con.fold(st, st.blocks[args[1].b].cells[x.con.accessor('expr', 0)][1]); out = []
        for s2, tv in x.branch(st, quadok(t)): out.append(Outcome(s2, 'ret', quad(t)) if tv else Outcome(s2, 'throw', ('?std', Opaque('exc'))))
        return out
    hints = {'calls': [(re.compile(r'rt_numerical_quadrature<.*>::operator\(\)\(viennamath::rt_expr<'), rec)]}
    def full(c, o):
        T = c.a['e'].term; x = c.x; isint = z3.And(Expr.is_Un(T), Op.is_INT(Expr.uop(T))); op = Expr.uop(T)
        val, t = midpoint(Op.in_lo(op), Op.in_hi(op), Expr.uarg(T), Expr.Var(Op.in_var(op))); lim = z3.And(L.isconst(Op.in_lo(op)), L.isconst(Op.in_hi(op)))
        wd = z3.And([L.wd(q, L.env0) for q in (Op.in_lo(op), Op.in_hi(op), t)])
        zero = z3.And(L.isconst(T), L.ev(T, L.env0) == 0)
        sums = z3.And(Expr.is_Bin(T), z3.Or(Expr.bop(T) == Op.PLUS, Expr.bop(T) == Op.MINUS)); parts = z3.And(quadok(Expr.blhs(T)), quadok(Expr.brhs(T)))
        s = z3.If(Expr.bop(T) == Op.PLUS, quad(Expr.blhs(T)) + quad(Expr.brhs(T)), quad(Expr.blhs(T)) - quad(Expr.brhs(T)))
        x.assume(o.st, z3.Implies(L.isconst(T), L.wd(T, L.env0)))
        if o.kind == 'abort': c.ob(o, P, 'assertion fails only for limits that are not constant', z3.And(isint, z3.Not(lim))); return
        if o.kind == 'throw': c.ob(o, P, 'raises only without an integral or for an integrand that does not reduce to a number', z3.And(z3.Not(zero), z3.Not(z3.And(isint, lim, L.isconst(t))), z3.Not(z3.And(sums, parts)))); return
        must_return(c, o, P); v = x.real(o.val)
        c.ob(o, P, 'a number only for sums and differences of integrals', z3.Or(isint, zero, z3.And(sums, parts)))
        c.ob(o, P, 'an integral is the one-point rule for its own variable and limits', z3.Implies(z3.And(isint, lim, wd), v == val))
        c.ob(o, P, 'sums and differences are integrated term by term', z3.Implies(z3.And(sums, z3.Not(zero)), v == s)); c.ob(o, P, 'the integral of zero is zero', z3.Implies(z3.And(zero, z3.Not(isint)), v == 0))
    out.append(W('quad_e', 'double', 'E:e', q + ' return q(e);', full, hints=hints))
    # exactness for polynomials of degree one, as a lemma over the contract of the rule
    def exact(c, o):
        a, b, l, h = [z3.Real(n) for n in 'ablh']; mid = (l + h) / 2
        c.ob(o, P, 'the one-point rule is exact for polynomials of degree one', (a * mid + b) * (h - l) == (a * h * h / 2 + b * h) - (a * l * l / 2 + b * l))
        c.ob(o, P, 'swapping the limits flips the sign', (a * mid + b) * (l - h) == -((a * mid + b) * (h - l)))
    out.append(W('quad_lemma', 'int', '', '0', exact))
    return out

# ------------------------------------------------------------------ P27: integrals
def w_integral():
    P = ('P27',); out = []
    def rt(var):
        def post(c, o): must_return(c, o, P); R = c.tree(o); c.ob(o, P, 'is the integral of the integrand over the given limits in the given variable', R == Expr.Un(Op.INT(c.a['i'].sides[0], c.a['i'].sides[1], var(c)), c.a['e'].term))
        return post
    for k in ('E', 'B', 'U', 'V', 'F', 'C', 'CL', 'CI'):
        out.append(W('int__%s_V' % k, 'RE', 'N:i %s:e V:v' % k, 'vm::integral(i, e, v)', rt(lambda c: c.a['v'].term.arg(0))))
        for n in CVIDS: out.append(W('int__%s_cv%d' % (k, n), 'RE', 'N:i %s:e' % k, 'vm::integral(i, e, vm::ct_variable<%d>())' % n, rt(lambda c, n=n: z3.BitVecVal(n, 64))))
        def sy(c, o): must_return(c, o, P); R = c.tree(o); c.ob(o, P, 'is the integral of the integrand over the given symbolic interval', R == Expr.Un(Op.SINT(c.a['s'].id), c.a['e'].term))
        out.append(W('sint__%s' % k, 'RE', 'SI:s %s:e' % k, 'vm::integral(s, e)', sy))
    OPI = 'typedef vm::op_rt_integral<IF> O; typedef vm::op_unary<O, IF> OU; '
    out.append(W('int__op', 'RE', 'N:i E:e V:v', OPI + 'return RE(new RU(e.get()->clone(), new OU(O(i, v))));', rt(lambda c: c.a['v'].term.arg(0))))
    for n in CVIDS: out.append(W('int__opct%d' % n, 'RE', 'N:i E:e', OPI + 'return RE(new RU(e.get()->clone(), new OU(O(i, vm::ct_variable<%d>()))));' % n, rt(lambda c, n=n: z3.BitVecVal(n, 64))))
    out.append(W('int__opas', 'RE', 'N:i N:j E:e V:v V:w', OPI + 'O a(i, v), b(j, w); b = a; return RE(new RU(e.get()->clone(), new OU(b)));', rt(lambda c: c.a['v'].term.arg(0))))
    def side(n):
        def post(c, o): must_return(c, o, P); R = c.tree(o); c.ob(o, P, 'the operation keeps its limits', R == c.a['i'].sides[n])
        return post
    out.append(W('int__lo', 'RE', 'N:i V:v', OPI + 'O a(i, v); return a.interval().lower();', side(0))); out.append(W('int__hi', 'RE', 'N:i V:v', OPI + 'O a(i, v); return a.interval().upper();', side(1)))
    out.append(W('int__var', 'unsigned long', 'N:i V:v', OPI + 'O a(i, v); return a.variable().id();', lambda c, o: (must_return(c, o, P), c.ob(o, P, 'the operation keeps its variable', c.x.bv(o.val) == c.a['v'].term.arg(0)))))
    out.append(W('sint__id', 'unsigned long', 'ul:n', 'vm::op_rt_symbolic_integral<IF> a((SI(n))); return a.interval().id();', lambda c, o: (must_return(c, o, P), c.ob(o, P, 'the operation keeps its interval', c.x.bv(o.val) == c.a['n'].vals[0]))))
    # an integral has no numeric value of its own
    for u, par_, tx in (('', 'N:i E:e V:v d:x', 'RE q(vm::integral(i, e, v)); return q.get()->eval(x);'), ('sym', 'SI:s E:e d:x', 'RE q(vm::integral(s, e)); return q.get()->eval(x);')):
        out.append(W('int__eval' + u, 'double', par_, tx, lambda c, o: c.ob(o, P, 'evaluating an integral raises an exception', o.kind == 'throw')))
    return out

# ------------------------------------------------------------------ P14: functor interfaces, their wrappers, callbacks by class
def w_functors():
    P = ('P14',); out = []
    def boolean(name, want):
        def post(c, o):
            must_return(c, o, P); c.ob(o, P, name, U.boolval(c.x, o.val) == want(c)); U.leaks(c.x, o.st, set())
        return post
    T = lambda c: c.a['e'].term
    same_tree = lambda c, o: (must_return(c, o, P), c.ob(o, P, 'the default manipulation returns the expression unchanged', c.tree(o) == T(c)))
    TR = 'struct D : vm::rt_traversal_interface<IF> { %s void operator()(IF const* q) const { %s } %s }; '
    MA = 'struct D : vm::rt_manipulation_interface<IF> { %s }; '
    out.append(W('fu__step', 'bool', 'E:e', TR % ('', '', '') + 'D d; vm::rt_traversal_interface<IF> const& b = d; return b.step_into(e.get());', boolean('a traversal functor steps in unless it declines', lambda c: z3.BoolVal(True))))
    out.append(W('fu__wstep', 'bool', 'E:e', TR % ('', '', '') + 'vm::rt_traversal_wrapper<IF> w(new D()); return w.step_into(e.get());', boolean('a traversal functor steps in unless it declines', lambda c: z3.BoolVal(True))))
    out.append(W('fu__wdecl', 'bool', 'E:e', TR % ('', '', 'bool step_into(IF const* q) const { return q->is_unary(); }') + 'vm::rt_traversal_wrapper<IF> w(new D()); return w.step_into(e.get());', boolean('the wrapper asks the functor', lambda c: z3.Not(Expr.is_Bin(T(c))))))
    CN = 'IF const** p; int* n; D(IF const** a, int* b) : p(a), n(b) {}'
    call = 'IF const* p = 0; int n = 0; { vm::rt_traversal_wrapper<IF> w(new D(&p, &n)); w(e.get()); } '
    out.append(W('fu__wcall', 'bool', 'E:e', TR % (CN, '*p = q; ++*n;', '') + call + 'return p == e.get() && n == 1;', boolean('the wrapper calls the functor once, on the node', lambda c: z3.BoolVal(True))))
    out.append(W('fu__mod', 'bool', 'E:e', MA % '' + 'D d; vm::rt_manipulation_interface<IF> const& b = d; return b.modifies(e.get());', boolean('a manipulation functor modifies nothing unless it says so', lambda c: z3.BoolVal(False))))
    out.append(W('fu__wmod', 'bool', 'E:e', MA % 'bool modifies(IF const* q) const { return q->is_unary(); }' + 'vm::rt_manipulation_wrapper<IF> w(new D()); return w.modifies(e.get());', boolean('the wrapper asks the functor', lambda c: z3.Not(Expr.is_Bin(T(c))))))
    out.append(W('fu__man', 'RE', 'E:e', MA % '' + 'D d; vm::rt_manipulation_interface<IF> const& b = d; return RE(b(e.get()));', same_tree))
    out.append(W('fu__wman', 'RE', 'E:e', MA % 'IF* operator()(IF const* q) const { return new RU(q->clone(), new vm::op_unary<vm::op_sin<double>, IF>()); }' + 'vm::rt_manipulation_wrapper<IF> w(new D()); return RE(w(e.get()));',
                 lambda c, o: (must_return(c, o, P), c.ob(o, P, 'the wrapper returns what the functor returns', c.tree(o) == Expr.Un(Op.SIN, T(c))))))
    for k, (ty, h) in sorted(TREE.items()):
        R = 'struct R { IF const** p; int* n; void operator()(%s const & q) const { *p = &q; ++*n; } }; IF const* p = 0; int n = 0; R r; r.p = &p; r.n = &n; bool b = vm::callback_if_castable<%s>::apply(e.get(), r); ' % (ty, ty)
        is_ = lambda c, h=h: getattr(Expr, 'is_' + h)(T(c))
        out.append(W('cb__b' + k, 'bool', 'E:e', R + 'return b;', boolean('true exactly for nodes of the class', is_)))
        out.append(W('cb__n' + k, 'bool', 'E:e', R + 'return n == 1;', boolean('called exactly for nodes of the class', is_)))
        out.append(W('cb__z' + k, 'bool', 'E:e', R + 'return n == 0;', boolean('not called for any other node', lambda c, is_=is_: z3.Not(is_(c)))))
        out.append(W('cb__p' + k, 'bool', 'E:e', R + 'return p == (b ? e.get() : 0);', boolean('called on the node itself', lambda c: z3.BoolVal(True))))
    return out

# ------------------------------------------------------------------ registry
GROUPS = {'P03': [('ops_' + OPN[o][0], lambda o=o: w_ops(o)) for o in OPN] + [('opsv', w_opsv), ('funs', w_funs)],
          'P01': [('evalfe', w_eval)], 'P02': [('evalfe', w_eval)], 'P04': [('substfe', lambda: w_subst() + w_subsym())], 'P05': [('substLfe', w_substL)], 'P11': [('copyfe', w_copy)], 'P15': [('vecfe', w_vec)], 'P26': [('sides', w_sides)], 'P14': [('functors', w_functors)], 'P06': [('simpfe', w_simp)], 'P07': [('simpfe', w_simp)],
          'P24': [('coords', w_coords)], 'P23': [('quad', w_quad)], 'P27': [('integrals', w_integral)], 'P22': [('ctrt', w_ct)], 'P08': [('difffe', w_diff)], 'P09': [('difffe', w_diff)]}
def tus(prop, tier):
    out = []
    for g, mk in GROUPS.get(prop, []):
        ws = mk(); aux = []
        if isinstance(ws, tuple): ws, aux = ws
        def gen(S, ws=ws):
            return [('w.' + w.uid, 'w__' + w.uid, lambda x, w=w: run_wrapper(x, w), w.hints) for w in ws if 'w__' + w.uid in S.m.funcs]
        out.append(TU(g, HEAD, [a.replace('aux ', 'extern "C" ', 1) for a in aux] + [w.line() for w in ws], gen))
    return out
