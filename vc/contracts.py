"""Contracts of the library's virtual interfaces, class layouts and the
correspondence between heap objects and the specification's tree terms.

A contracted method is replaced by its contract at every call (virtual or
direct); the bodies are verified against the same contract, one unit per class
and method, in units.py.
"""
import re, z3
import logic as L
from logic import Expr, Op
from exec import *
import text as TX
from ir import Ty

E_ROOT = 'viennamath::rt_expression_interface<double>'
ROOTS = {E_ROOT: 'E', 'viennamath::op_interface<%s >' % E_ROOT: 'O',
         'viennamath::rt_manipulation_interface<%s >' % E_ROOT: 'M', 'viennamath::rt_traversal_interface<%s >' % E_ROOT: 'T',
         'viennamath::numerical_quadrature_interface<%s >' % E_ROOT: 'Q'}
HEADS = ['Const', 'ConstL', 'ConstI', 'Var', 'Fun', 'Un', 'Bin', 'Vec']
OPTAG = {'op_id': 'ID', 'op_exp': 'EXP', 'op_sin': 'SIN', 'op_cos': 'COS', 'op_tan': 'TAN', 'op_fabs': 'FABS', 'op_sqrt': 'SQRT', 'op_log': 'LOG',
         'op_log10': 'LOG10', 'op_plus': 'PLUS', 'op_minus': 'MINUS', 'op_mult': 'MULT', 'op_div': 'DIVI', 'op_gradient': 'GRAD', 'op_divergence': 'DIVG',
         'op_partial_deriv': 'PD', 'op_rt_symbolic_integral': 'SINT', 'op_rt_integral': 'INT'}
ECLS = {'rt_variable': 'Var', 'rt_function_symbol': 'Fun', 'rt_unary_expr': 'Un', 'rt_binary_expr': 'Bin', 'rt_vector_expr': 'Vec'}
IDX_EXC = 'variable_index_out_of_bounds_exception'
LEVEL = {'str': 0, 'is_unary': 0, 'is_constant': 1, 'deep_equal': 1, 'shallow_equal': 1, 'equal': 1, 'clone': 1, 'evalv': 2, 'eval1': 2, 'unwrap': 2,
         'apply1': 0, 'apply2': 0, 'can_simplify': 3, 'ocan0': 0, 'ocan2': 3, 'simplify': 4, 'osimplify': 4, 'subst': 4, 'substL': 4, 'diff': 5, 'odiff2': 5,
         'odiff3': 5, 'manip': 5, 'trav': 5}
PROPS = {'is_constant': ('P13',), 'deep_equal': ('P10',), 'shallow_equal': ('P10',), 'equal': ('P10',), 'clone': ('P11',), 'evalv': ('P01', 'P02'),
         'eval1': ('P01', 'P02'), 'unwrap': ('P13',), 'apply1': ('P01',), 'apply2': ('P01',), 'can_simplify': ('P07',), 'ocan0': ('P07',), 'ocan2': ('P07',),
         'simplify': ('P06', 'P07'), 'osimplify': ('P06', 'P07'), 'subst': ('P04',), 'substL': ('P05',), 'diff': ('P08', 'P09'), 'odiff2': ('P08', 'P09'),
         'odiff3': ('P08', 'P09'), 'manip': ('P14', 'P04'), 'trav': ('P14',), 'str': ('P12',), 'is_unary': ('P01',)}

def method_key(root, d):
    """contract key of a demangled virtual member function"""
    m = re.match(r'.*::(operator\(\)|~?[A-Za-z_]\w*)(\[abi:cxx11\])?\((.*)\)( const)?$', d, re.S)
    if not m: return None
    n, params = m.group(1), m.group(3)
    if n.startswith('~'): return 'dtor'
    dep = 0; np = 1 if params.strip() else 0
    for c in params:
        dep += {'<': 1, '>': -1, '(': 1, ')': -1}.get(c, 0)
        if c == ',' and dep == 0: np += 1
    if root == 'E':
        if n == 'eval': return 'evalv' if 'vector' in params else 'eval1'
        if n == 'substitute': return 'substL' if 'vector' in params else 'subst'
        return {'clone': 'clone', 'deep_str': 'str', 'shallow_str': 'str', 'is_unary': 'is_unary', 'is_constant': 'is_constant', 'unwrap': 'unwrap',
                'shallow_equal': 'shallow_equal', 'deep_equal': 'deep_equal', 'recursive_manipulation': 'manip', 'recursive_traversal': 'trav',
                'simplify': 'simplify', 'can_simplify': 'can_simplify', 'diff': 'diff'}.get(n)
    if root == 'O':
        if n == 'apply': return 'apply%d' % np
        if n == 'diff': return 'odiff%d' % np
        if n == 'can_simplify': return 'ocan%d' % np
        return {'clone': 'clone', 'str': 'str', 'is_unary': 'is_unary', 'simplify': 'osimplify', 'equal': 'equal'}.get(n)
    if root == 'M': return {'operator()': 'mcall', 'modifies': 'mmod'}.get(n)
    if root == 'T': return {'operator()': 'tcall', 'step_into': 'tstep'}.get(n)
    return None

class Contracts:
    def __init__(self, mod):
        self.m = mod; self.x = None; self.bases = {}; self.tiname = {}; self.vt = {}
        self.measure = None          # (level, size term, rank) of the unit under verification
        self.prefix = {}
        for n in list(mod.globals):
            if n.startswith('_ZTI'):
                g = mod.glob(n); self.tiname[n] = mod.demangled(n).replace('typeinfo for ', '')
                bs = []
                if g and g[0] == 'g' and g[2] and g[2][0] == 'agg':
                    fs = [v for t, v in g[2][1]]
                    k = fs[0][3][0][1][1] if fs[0][0] == 'ce' else ''
                    if '__si_' in k: bs = [(fs[2][1], 0)]
                    elif '__vmi_' in k:
                        for i in range(4, len(fs), 2): bs.append((fs[i][1], fs[i + 1][1] >> 8))
                self.bases[n] = bs
            elif n.startswith('_ZTV') and not n.startswith('_ZTVN10__cxxabiv1'):
                g = mod.glob(n)
                if g and g[0] == 'g' and g[2] and g[2][0] == 'agg':
                    ent = [v for t, v in g[2][1][0][1][1]]
                    if len(ent) > 1 and ent[1][0] == 'g': self.vt[ent[1][1]] = (n, [e[1] if e[0] == 'g' else None for e in ent[2:]])
        self.rootof = {}
        for t in list(self.bases):
            r = [s for s in self.supers(t) if self.tiname.get(s) in ROOTS]
            if r: self.rootof[t] = ROOTS[self.tiname[r[0]]]
        self.rootti = {ROOTS[self.tiname[t]]: t for t in self.tiname if self.tiname[t] in ROOTS}
        # constructor <-> class
        self.ctor = {}; self.cls = {}
        for t, r in self.rootof.items():
            if t == self.rootti.get(r) or t not in self.vt: continue
            c = self.ctor_of(r, self.tiname[t])
            if c: self.ctor[t] = c; self.cls[(r, c)] = t
        # slots
        self.slots = {}; self.over = {}
        for t, (v, fs) in self.vt.items():
            r = self.rootof.get(t)
            if not r: continue
            for i, f in enumerate(fs):
                if f is None or f == '__cxa_pure_virtual': continue
                k = method_key(r, mod.demangled(f))
                if k == 'dtor': k = 'D1' if f.endswith(('D1Ev', 'D2Ev')) else 'D0'
                self.slots.setdefault(r, {}).setdefault(i, k)
                if t in self.ctor and k and k not in ('D0', 'D1'): self.over[f] = (r, k)
        # vtables of functor classes are opaque: their objects are abstract
        self.lay = {}
    def ctor_of(self, r, name):
        n = name.replace('viennamath::', '', 1)
        if r == 'E':
            m = re.match(r'rt_constant<(double|long|int), ', n)
            if m: return {'double': 'Const', 'long': 'ConstL', 'int': 'ConstI'}[m.group(1)]
            return ECLS.get(n.split('<')[0])
        if r == 'O':
            m = re.match(r'op_(unary|binary)<viennamath::(\w+)', n)
            return OPTAG.get(m.group(2)) if m else None
        return None
    def supers(self, t):
        out, w = set(), [t]
        while w:
            a = w.pop()
            if a in out: continue
            out.add(a); w.extend(b for b, o in self.bases.get(a, []))
        return out
    def hier_types(self): return self.bases
    # ------------------------------------------------------------ layout
    def accessor(self, head, i):
        k = (head, i)
        if k not in self.lay:
            x = self.x; st = State(); q, x.quiet = x.quiet, 1
            outs = x.call_function(st, 'acc__%s__%d' % k, [Probe(0)])
            x.quiet = q
            if len(outs) != 1 or not isinstance(outs[0].val, Probe): raise Unsupported('layout of %s' % head)
            self.lay[k] = outs[0].val.off
        return self.lay[k]
    def vec_base(self):
        for b, o in self.bases[self.cls[('E', 'Vec')]]:
            if 'vector' in self.tiname.get(b, b): return o
        raise Unsupported('vector base')
    def structsize(self, t):
        n = self.tiname[t]
        for p in ('class.', 'struct.'):
            pass
        for k in self.m.types:
            if k.split('.', 1)[-1].strip('"') == n: return self.m.size(Ty('named', k))
        return None
    def vptr(self, t): 
        self.x.m
        return Ptr(('g', self.vt[t][0]), 16)
    # ------------------------------------------------------------ objects -> terms
    def cls_of(self, st, b):
        """typeinfo of the class of block b (None if not fixed)"""
        if b.cls: return b.cls
        c = b.cells.get(0)
        if c and isinstance(c[1], Ptr) and isinstance(c[1].b, tuple) and c[1].b[1].startswith('_ZTV'):
            v = c[1].b[1]
            for t, (n, fs) in self.vt.items():
                if n == v: return t
        return None
    def fold(self, st, p):
        """term of the object p points to"""
        x = self.x
        if not isinstance(p, Ptr): raise Unsupported('fold of %r' % (p,))
        if p.b is None:
            x.oblige(st, x.safety_props, 'expression pointer is not null', False); raise DeadPath()
        p = x.unalias(st, p); b = st.blocks[p.b]
        if b.freed:
            x.oblige(st, x.safety_props, 'no use after free (expression)', False); raise DeadPath()
        if b.kind == 'abs' and not b.unf:
            if p.off != 0: raise Unsupported('fold inside object')
            return b.term
        if b.kind == 'abs' and b.ro and p.off == 0: return b.term
        return self.fold_at(st, b, p.off)
    def fold_at(self, st, b, off):
        x = self.x
        c = b.cells.get(off)
        if not (c and isinstance(c[1], Ptr) and isinstance(c[1].b, tuple)): raise Unsupported('fold of %s at +%d without class' % (b.name, off))
        t = None
        for u, (n, fs) in self.vt.items():
            if n == c[1].b[1]: t = u
        h = self.ctor.get(t)
        if h is None:
            x.oblige(st, x.safety_props, 'object of a library class (%s)' % self.tiname.get(t), False); raise DeadPath()
        r = self.rootof[t]
        def cell(h, i):
            o = off + self.accessor(h, i)
            v = b.cells.get(o)
            if v is None or v[1] is UNDEF:
                x.oblige(st, x.safety_props, 'expression node is fully initialised', False); raise DeadPath()
            return v[1]
        if h == 'Const': return Expr.Const(x.real(cell(h, 0)))
        if h == 'ConstL': return Expr.ConstL(x.bv(cell(h, 0)))
        if h == 'ConstI': return Expr.ConstI(x.bv(cell(h, 0), 32))
        if h == 'Var': return Expr.Var(x.bv(cell(h, 0)))
        if h == 'Fun': return Expr.Fun(x.bv(cell(h, 0)), x.bv(cell(h, 1)))
        if h == 'Un':
            o, a = self.fold(st, cell(h, 0)), self.fold(st, cell(h, 1))
            self.wf(st, z3.Not(L.bok(o)), 'unary node holds a unary operator')
            return Expr.Un(o, a)
        if h == 'Bin':
            o, a, c2 = self.fold(st, cell(h, 0)), self.fold(st, cell(h, 1)), self.fold(st, cell(h, 2))
            self.wf(st, L.bok(o), 'binary node holds a binary operator')
            return Expr.Bin(o, a, c2)
        if h == 'Vec':
            vb = b.cells.get(off + self.vec_base())
            if not vb or not isinstance(vb[1], VecVal): raise Unsupported('vector object')
            return Expr.Vec(self.vec_term(st, st.blocks[vb[1].b]))
        if h == 'PD': return Op.PD(x.bv(cell(h, 0)))
        if h == 'SINT': return Op.SINT(x.bv(cell(h, 0)))
        if h == 'INT':
            vo = off + self.accessor(h, 2) + self.accessor('Var', 0)
            v = b.cells.get(vo)
            if v is None: raise Unsupported('integral variable')
            return Op.INT(self.fold(st, cell(h, 0)), self.fold(st, cell(h, 1)), x.bv(v[1]))
        return getattr(Op, h)
    def wf(self, st, g, what):
        g2 = z3.simplify(g)
        if not z3.is_true(g2): self.x.oblige(st, ('P03', 'P11'), 'well-formed tree: ' + what, g)
    def vec_term(self, st, b):
        """VecS / EnvS / ListS term of a vector data block"""
        x = self.x
        if b.env is not None: return b.env
        n = x.bv(b.n); M = x.models
        srt, ln, gt, nm = {'double': (L.EnvS, L.envsize, L.envget, 'env'), 'rtexpr': (L.VecS, L.vlen, L.vget, 'vec'), 'eptr': (L.ListS, L.plen, L.pget, 'lst')}[b.ek]
        v = x.fresh(srt, nm)
        x.assume(st, ln(v) == n)
        if b.ek != 'double':
            k = x.fresh(L.BV64, 'k')
            nl = M.vec_null(st, b, k)
            if not z3.is_false(nl):
                s2 = st.fork(); s2.pc.append(z3.ULT(k, n))
                x.oblige(s2, x.safety_props, 'no null component in a vector of expressions', z3.Not(nl))
        if not (isinstance(b.n, int) and b.n == 0):
            fr = st.fork()
            f = lambda k, b=b, fr=fr: z3.Implies(z3.ULT(k, n), gt(v, k) == M.vec_elem(fr, b, k))
            st.forall.append((gt.name(), v, f))
            for i, w in b.over: x.assume(st, f(x.bv(i)))
        bb = st.w(b.id); bb.env = v
        return v
    # ------------------------------------------------------------ terms -> objects
    def fresh_tree(self, st, term, root='E'):
        b = self.x.new_block(st, 'abs', None, 'tree'); b.root = root; b.term = term; b.owned = True
        return Ptr(b.id, 0)
    def borrowed(self, st, term, root='E', name='input'):
        b = self.x.new_block(st, 'abs', None, name); b.root = root; b.term = term; b.ro = True
        return Ptr(b.id, 0)
    def child(self, st, b, term, root):
        c = self.x.new_block(st, 'abs', None, 'part of ' + b.name); c.root = root; c.term = term; c.ro = b.ro
        c.owned = b.owned or not b.ro
        return Ptr(c.id, 0)
    def unfold(self, st, bid, t):
        """give the abstract object the cells of class t (its term is known to have t's constructor)"""
        x = self.x; b = st.w(bid)
        if b.unf: return
        b.unf = True; b.cls = t; h = self.ctor[t]; r = b.root; T = b.term
        x.touch_global(st, self.vt[t][0])
        b.cells[0] = (8, self.vptr(t))
        is_ctor = z3.is_app(T) and T.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and T.decl().name() == h
        sorts = {'Const': [L.R], 'ConstL': [L.BV64], 'ConstI': [L.BV32], 'Var': [L.BV64], 'Fun': [L.BV64] * 2, 'Un': [Op, Expr], 'Bin': [Op, Expr, Expr], 'Vec': [L.VecS],
                 'PD': [L.BV64], 'SINT': [L.BV64], 'INT': [Expr, Expr, L.BV64]}.get(h, [])
        if is_ctor: a = T.children()
        else:
            a = [x.fresh(s, h.lower()) for s in sorts]
            ctor = getattr(Expr if r == 'E' else Op, h)
            tm = ctor(*a) if sorts else ctor
            x.assume(st, T == tm); b.term = tm
        def put(i, n, v): st.blocks[bid].cells[self.accessor(h, i)] = (n, v)
        if h in ('Const', 'ConstL', 'Var', 'PD', 'SINT'): put(0, 8, a[0])
        elif h == 'ConstI': put(0, 4, a[0])
        elif h == 'Fun': put(0, 8, a[0]); put(1, 8, a[1])
        elif h == 'Un':
            x.assume(st, z3.Not(L.bok(a[0])))
            put(0, 8, self.child(st, b, a[0], 'O')); put(1, 8, self.child(st, b, a[1], 'E'))
        elif h == 'Bin':
            x.assume(st, L.bok(a[0]))
            put(0, 8, self.child(st, b, a[0], 'O')); put(1, 8, self.child(st, b, a[1], 'E')); put(2, 8, self.child(st, b, a[2], 'E'))
        elif h == 'Vec':
            d = x.new_block(st, 'vec', None, 'components'); d.ek = 'rtexpr'; d.n = L.vlen(a[0]); d.base = lambda k, v=a[0]: L.vget(v, k)
            d.null = False; d.env = a[0]; d.ro = b.ro; d.owned = b.owned or not b.ro
            st.blocks[bid].cells[self.vec_base()] = (24, VecVal(d.id))
        elif h == 'INT':
            put(0, 8, self.child(st, b, a[0], 'E')); put(1, 8, self.child(st, b, a[1], 'E'))
            o = self.accessor(h, 2); tv = self.cls[('E', 'Var')]
            x.touch_global(st, self.vt[tv][0])
            st.blocks[bid].cells[o] = (8, self.vptr(tv)); st.blocks[bid].cells[o + self.accessor('Var', 0)] = (8, a[2])
    def rec(self, root, h, term):
        return getattr(Expr if root == 'E' else Op, 'is_' + h)(term)
    def abs_load(self, st, b, p, t):
        """load from an abstract object whose class is not fixed: fix it if the path condition does"""
        x = self.x; out = []
        if b.unf: return [(st, UNDEF)]
        if b.root not in ('E', 'O'): raise Unsupported('field of a functor')
        for h in (HEADS if b.root == 'E' else list(OPTAG.values())):
            ty = self.cls.get((b.root, h))
            if ty is None: continue
            s2 = st.fork(); s2.pc.append(self.rec(b.root, h, b.term))
            if not x.feasible(s2): continue
            self.unfold(s2, b.id, ty)
            if p.off not in s2.blocks[b.id].cells: raise Unsupported('field +%d of an expression of unknown class' % p.off)
            out += x.load(s2, p, t)
        return out
    def dynamic_cast(self, st, p, src, dst):
        x = self.x
        if not isinstance(p, Ptr): raise Unsupported('dynamic_cast of %r' % (p,))
        if p.b is None: return [Outcome(st, 'ret', NULL)]
        p = x.unalias(st, p)
        b = x.deref(st, p, 'dynamic_cast')
        if b is None: return []
        d = dst.b[1]
        t = self.cls_of(st, b) if p.off == 0 else None
        if p.off != 0:
            c = b.cells.get(p.off)
            for u, (n, fs) in self.vt.items():
                if c and isinstance(c[1], Ptr) and isinstance(c[1].b, tuple) and n == c[1].b[1]: t = u
        if t is not None: return [Outcome(st, 'ret', p if d in self.supers(t) else NULL)]
        if b.kind != 'abs': raise Unsupported('dynamic_cast of object of unknown class')
        if d == self.rootti.get(b.root): return [Outcome(st, 'ret', p)]
        h = self.ctor.get(d)
        if h is None or self.rootof.get(d) != b.root:
            if b.root in ('E', 'O') and d in self.bases: return [Outcome(st, 'ret', NULL)]    # closed world of node classes
            raise Unsupported('dynamic_cast to %s' % self.tiname.get(d, d))
        out = []
        for s2, tv in x.branch(st, self.rec(b.root, h, b.term)):
            if tv: self.unfold(s2, b.id, d)
            out.append(Outcome(s2, 'ret', p if tv else NULL))
        return out
    def deep_free(self, st, p):
        x = self.x
        if not isinstance(p, Ptr): raise Unsupported('delete of %r' % (p,))
        if p.b is None: return True
        p = x.unalias(st, p); b = st.blocks[p.b]
        if b.freed:
            x.oblige(st, x.safety_props, 'no double free', False); return False
        if b.ro or b.kind not in ('abs', 'heap') or not b.owned:
            x.oblige(st, x.safety_props, 'only owned expressions are destroyed', False); return False
        st.w(b.id).freed = True
        for o, (n, v) in b.cells.items():
            if isinstance(v, Ptr) and isinstance(v.b, int) and st.blocks[v.b].kind in ('abs', 'heap'):
                if not self.deep_free(st, v): return False
            elif isinstance(v, VecVal):
                if not x.models.free_vec(st, st.blocks[v.b]): return False
        return True
    # ------------------------------------------------------------ calls
    def virtual(self, st, fv, args, rty):
        x = self.x; b = st.blocks[fv.b]
        k = self.slots.get(b.root, {}).get(fv.slot)
        if b.cls and b.cls in self.vt:
            return x.call(st, Fn(self.vt[b.cls][1][fv.slot]), args, rty, None)
        if k is None: raise Unsupported('virtual call of slot %d without contract' % fv.slot)
        return self.apply(st, b.root, k, args, rty)
    def try_contract(self, st, name, args, rty):
        o = self.over.get(name)
        if o is None: return None
        return self.apply(st, o[0], o[1], args, rty, name)
    def apply(self, st, root, k, args, rty, name=None):
        try:
            self.x.havoc_statics(st)
            return self._apply(st, root, k, args, rty)
        except DeadPath: return []
    def meas_check(self, st, k, sz):
        if self.measure is None: return
        x = self.x; l, s, r = self.measure
        if LEVEL.get(k, 0) < l or k in ('mcall', 'mmod', 'tcall', 'tstep'): return
        rk = 0 if k in ('equal', 'osimplify', 'odiff2', 'odiff3', 'ocan2', 'ocan0') else 1
        g = (sz <= s) if (LEVEL[k] == l and rk < r) else (sz < s) if LEVEL[k] == l else z3.BoolVal(False)
        x.oblige(st, PROPS.get(x.unit_key, ('P12',)), 'recursion terminates (call of %s)' % k, g)
    def arg_env(self, st, p):
        b = self.x.models.vec_obj(st, p)
        if b is None: raise DeadPath()
        return self.vec_term(st, b)
    arg_list = arg_env
    def arg_fw(self, st, p, root):
        x = self.x; b = x.deref(st, p, 'functor wrapper')
        if b is None: raise DeadPath()
        for o, (n, v) in b.cells.items():
            if isinstance(v, Ptr) and isinstance(v.b, int):
                c = st.blocks[v.b]
                if c.kind == 'abs' and c.root == root: return c.term
                if root == self.rootof.get(self.cls_of(st, c)): return self.functor_term(st, c, root)
        raise Unsupported('functor wrapper')
    def functor_term(self, st, c, root):
        G = getattr(self.x, 'functor_spec', None)
        if G is None or root != 'M': return z3.Const('functor!%s' % c.id, L.FunS)
        # a concrete functor object: its own methods, run on an arbitrary node, must agree with the functor the
        # specification names (on every node for modifies(), on modified nodes and leaves for operator())
        import units as U
        x = self.x; t = self.cls_of(st, c); e = x.fresh(Expr, 'visited'); P = getattr(x, 'functor_props', ('P04',))
        m = {k: self.vt[t][1][i] for i, k in self.slots[root].items() if k in ('mcall', 'mmod')}
        s2 = st.fork(); p = self.borrowed(s2, e, 'E', 'visited node')
        for o in x.call_function(s2, m['mmod'], [Ptr(c.id, 0), p]):
            x.oblige(o.st, P, 'the functor declares exactly the specified nodes', o.kind == 'ret' and U.boolval(x, o.val) == L.FMOD(G, e))
        s2 = st.fork(); p = self.borrowed(s2, e, 'E', 'visited node'); old = set(s2.blocks)
        x.assume(s2, z3.Or(L.FMOD(G, e), z3.Not(z3.Or(Expr.is_Un(e), Expr.is_Bin(e)))))
        for o in x.call_function(s2, m['mcall'], [Ptr(c.id, 0), p]):
            if o.kind != 'ret': x.oblige(o.st, P, 'the functor returns normally', False); continue
            seen = set(); U.walk(x, o.st, o.val, seen, ('P11', 'P12'))
            x.oblige(o.st, P, 'the functor turns a node into the specified one', self.fold(o.st, o.val) == L.FMAP(G, e))
            for k, b in o.st.blocks.items():
                if k not in old and b.owned and not b.freed and b.id not in seen and b.kind in ('heap', 'abs', 'vec'): x.oblige(o.st, ('P12',), 'no leak in a functor (%s)' % b.name, False)
        return G
    def env_of_real(self, v): return L.env1(self.x.real(v))
    def _apply(self, st, root, k, args, rty):
        x = self.x
        x.contracted.add('%s.%s' % (root, k))
        sret = rty.k == 'void' and k == 'str'
        if k == 'str' and x.hints.get('text') and root == 'O':      # the text is the real function's, class by class
            p = x.unalias(st, args[1]); b = st.blocks[p.b]; out = []
            for h in OPTAG.values():
                ty = self.cls.get(('O', h)); s2 = st.fork(); s2.pc.append(self.rec('O', h, b.term))
                if ty is None or not x.feasible(s2): continue
                self.unfold(s2, b.id, ty)
                if not x.feasible(s2): continue
                slot = next(i for i, q in self.slots['O'].items() if q == 'str'); out += x.call_function(s2, self.vt[ty][1][slot], args)
            return out
        if k == 'str' and x.hints.get('text'):
            t = self.fold(st, args[1])
            if x.hints['text'] == 'tree': self.meas_check(st, 'str', L.size(t))
            TX.put(st, 'str', TX.addr(args[0]), (('ds', t),))
        if k == 'str': return [Outcome(st, 'ret')] if rty.k == 'void' else [Outcome(st, 'ret', Opaque('string'))]
        ret = lambda s, v=None: Outcome(s, 'ret', v)
        if k in ('D0', 'D1'):
            if k == 'D1': raise Unsupported('destructor call on abstract object')
            return [ret(st)] if self.deep_free(st, args[0]) else []
        if root in ('M', 'T'):
            f = self.fold_functor(st, args[0]); t = self.fold(st, args[1])
            if k == 'mcall': return [ret(st, self.fresh_tree(st, L.fmap(f, t)))]
            if k == 'mmod': return [ret(st, L.fmod(f, t))]
            if k == 'tcall':
                st.ghost['trace'] = L.snoc(st.ghost['trace'], t); return [ret(st)]
            if k == 'tstep': return [ret(st, L.fstep(f, t))]
        t = self.fold(st, args[0])
        if root == 'E':
            if k in ('evalv', 'eval1'):
                env = self.arg_env(st, args[1]) if k == 'evalv' else self.env_of_real(args[1])
                self.meas_check(st, k, L.size(t))
                out = []
                for s2, tv in x.branch(st, L.evok(t, env)):
                    if tv: out.append(ret(s2, L.ev(t, env)))
                    else:
                        a = s2.fork(); out.append(Outcome(a, 'throw', (IDX_EXC, Opaque('exc'))))
                        x.assume(s2, z3.Not(L.numeric(t)))
                        if x.feasible(s2): out.append(Outcome(s2, 'throw', ('?', Opaque('exc'))))
                return out
            if k == 'unwrap':
                self.meas_check(st, k, L.size(t)); out = []
                for s2, tv in x.branch(st, L.evok(t, L.env0)):
                    out.append(ret(s2, L.ev(t, L.env0)) if tv else Outcome(s2, 'throw', ('?', Opaque('exc'))))
                return out
            if k == 'is_unary': return [ret(st, z3.Not(Expr.is_Bin(t)))]
            if k == 'is_constant':
                self.meas_check(st, k, L.size(t)); return [ret(st, L.isconst(t))]
            if k in ('deep_equal', 'shallow_equal'):
                if args[1] == NULL: return [ret(st, 0)]
                o = self.fold(st, args[1])
                self.meas_check(st, k, L.size(t) + L.size(o))     # symmetric: either side may be the receiver
                return [ret(st, z3.simplify(t == o) if k == 'deep_equal' else samehead(t, o))]
            if k == 'clone':
                self.meas_check(st, k, L.size(t)); return [ret(st, self.fresh_tree(st, t))]
            if k == 'subst':
                e, r = self.fold(st, args[1]), self.fold(st, args[2])
                self.meas_check(st, k, L.size(t)); return [ret(st, self.fresh_tree(st, L.subst(t, e, r)))]
            if k == 'substL':
                e, r = self.arg_list(st, args[1]), self.arg_list(st, args[2])
                x.oblige(st, ('P05',), 'search and replacement lists have the same length', L.plen(e) == L.plen(r))
                self.meas_check(st, k, L.size(t)); return [ret(st, self.fresh_tree(st, L.substL(t, e, r)))]
            if k == 'can_simplify':
                self.meas_check(st, k, L.size(t)); return [ret(st, L.cs(t))]
            if k == 'simplify':
                self.meas_check(st, k, L.size(t)); return [ret(st, self.simplified(st, t))]
            if k == 'diff':
                v = self.fold(st, args[1]); self.meas_check(st, k, L.size(t))
                return self.derivative(st, t, v, L.difok(t, v))
            if k == 'manip':
                f = self.arg_fw(st, args[1], 'M'); self.meas_check(st, k, L.size(t))
                return [ret(st, self.fresh_tree(st, L.manip(f, t)))]
            if k == 'trav':
                f = self.arg_fw(st, args[1], 'T'); self.meas_check(st, k, L.size(t))
                st.ghost['trace'] = L.trav(st.ghost['trace'], f, t); return [ret(st)]
        if root == 'O':
            if k == 'is_unary': return [ret(st, z3.Not(L.bok(t)))]
            if k == 'clone':
                self.meas_check(st, k, L.osize(t)); return [ret(st, self.fresh_tree(st, t, 'O'))]
            if k == 'equal':
                o = self.fold(st, args[1]); self.meas_check(st, k, L.osize(t) + L.osize(o)); return [ret(st, z3.simplify(t == o))]
            if k in ('apply1', 'apply2'):
                ok = L.uok(t) if k == 'apply1' else L.bok(t); out = []
                for s2, tv in x.branch(st, ok):
                    out.append(ret(s2, L.uapp(t, x.real(args[1])) if k == 'apply1' else L.bapp(t, x.real(args[1]), x.real(args[2]))) if tv
                               else Outcome(s2, 'throw', ('?', Opaque('exc'))))
                return out
            if k == 'ocan0':
                c = x.fresh(L.B, 'ocs'); x.assume(st, z3.Implies(c, L.uok(t))); return [ret(st, c)]
            if k == 'odiff2':
                e, v = self.fold(st, args[1]), self.fold(st, args[2]); u = Expr.Un(t, e)
                self.meas_check(st, k, L.size(u))
                return self.derivative(st, u, v, z3.And(z3.Not(L.bok(t)), L.difok(u, v)))
            if k in ('ocan2', 'osimplify', 'odiff3'):
                l, r = self.fold(st, args[1]), self.fold(st, args[2]); bb = Expr.Bin(t, l, r)
                self.meas_check(st, k, L.size(bb))
                if k == 'odiff3':
                    v = self.fold(st, args[3])
                    return self.derivative(st, bb, v, z3.And(L.bok(t), L.difok(bb, v)))
                x.oblige(st, PROPS[k], 'operator-level %s is called on a binary node' % k, L.bok(t))
                x.oblige(st, PROPS[k], 'operator-level %s is called with a non-constant operand' % k, z3.Not(z3.And(L.isconst(l), L.isconst(r))))
                if k == 'ocan2': return [ret(st, L.cs(bb))]
                return [ret(st, self.simplified(st, bb))]
        raise Unsupported('contract %s.%s' % (root, k))
    def fold_functor(self, st, p):
        b = self.x.deref(st, p, 'functor')
        if b is None: raise DeadPath()
        if b.kind == 'abs': return b.term
        raise Unsupported('functor object')
    # ------------------------------------------------------------ shared postconditions
    def simp_post(self, t, r):
        """[(props, label, formula at env)], [(props, label, formula)]"""
        at = lambda e: [(('P06',), 'simplify keeps the value', z3.Implies(L.wd(t, e), L.ev(r, e) == L.ev(t, e))),
                        (('P06',), 'simplify keeps denominators nonzero', z3.Implies(L.wd(t, e), L.wd(r, e))),
                        (('P06',), 'simplify keeps the expression evaluable', z3.Implies(L.evok(t, e), L.evok(r, e)))]
        gl = [(('P07',), 'simplify does not grow the expression', L.meas(r) <= L.meas(t)),
              (('P07',), 'simplify shrinks a simplifiable expression', z3.Implies(L.cs(t), L.meas(r) < L.meas(t))),
              (('P07',), 'simplify collapses constants to one constant', z3.Implies(L.isconst(t), isleafconst(r)))]
        return at, gl
    def simplified(self, st, t):
        x = self.x; r = L.simp1(t)                 # deterministic: equal trees simplify to equal trees
        at, gl = self.simp_post(t, r)
        for p, l, f in gl: x.assume(st, f)
        fn = lambda e: z3.And([f for p, l, f in at(e)])
        for nm in ('ev', 'evok', 'wd'): st.forall.append((nm, r, fn))
        return self.fresh_tree(st, r)
    def diff_post(self, t, v, d):
        def at(e):
            return [(('P08', 'P09'), 'derivative has the analytic value', z3.Implies(L.dwd(t, e), L.ev(d, e) == L.dv(t, v, e))),
                    (('P08', 'P09'), 'derivative is defined where the function is differentiable', z3.Implies(L.dwd(t, e), L.wd(d, e))),
                    (('P08',), 'derivative is evaluable where the expression is', z3.Implies(L.evok(t, e), L.evok(d, e)))]
        return at
    def derivative(self, st, t, v, ok):
        x = self.x; out = []
        for s2, tv in x.branch(st, ok):
            if not tv: out.append(Outcome(s2, 'throw', ('?', Opaque('exc')))); continue
            # deterministic: calling diff twice gives equal trees
            d = L.dterm(t, v)
            at = self.diff_post(t, v, d); fn = lambda e, at=at: z3.And([f for p, l, f in at(e)])
            for nm in ('ev', 'evok', 'wd'): s2.forall.append((nm, d, fn))
            s2.forall.append(('dv', t, fn))
            out.append(Outcome(s2, 'ret', self.fresh_tree(s2, d)))
        return out

class DeadPath(Exception): pass
def samehead(t, o):
    return z3.Or([z3.And(getattr(Expr, 'is_' + h)(t), getattr(Expr, 'is_' + h)(o)) for h in HEADS])
def isleafconst(t): return z3.Or(Expr.is_Const(t), Expr.is_ConstL(t), Expr.is_ConstI(t))
