"""Symbolic executor for the LLVM IR of /repo's code: path-complete, modular.

Function calls: a virtual call on an object whose class is not fixed, and any
call of an override of a contracted virtual method, is replaced by the method's
contract; standard-library containers and the C++ runtime are modelled
(models.py); everything else is inlined.  Loops with a symbolic trip count are
cut with an inductive invariant found by Houdini over candidate facts.
"""
import os, z3, itertools, time, sys
from fractions import Fraction
from ir import IRError, Ty
import logic as L

class Unsupported(Exception): pass
class NeedInvariant(Exception): pass
class Budget(Unsupported): pass

class Ptr:
    __slots__ = ('b', 'off', 'idx')
    def __init__(self, b, off=0, idx=None): self.b, self.off, self.idx = b, off, idx
    def __repr__(self): return 'Ptr(%s,%s%s)' % (self.b, self.off, '' if self.idx is None else ',#%s' % self.idx)
    def __eq__(self, o): return isinstance(o, Ptr) and self.b == o.b and self.off == o.off and same(self.idx, o.idx)
    def __hash__(self): return hash((self.b, self.off))
def closed(v):
    todo = [v]
    while todo:
        e = todo.pop()
        if e.num_args() == 0 and z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: return False
        if z3.is_var(e): return False
        todo += e.children()
    return True
import math
LN10 = Fraction(math.log(10.0))
NULL = Ptr(None, 0)
def same(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if z3.is_expr(a) or z3.is_expr(b): return False
    return type(a) == type(b) and a == b
class Fn:
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'Fn(%s)' % self.name
class VPtr:
    def __init__(self, b, off=0): self.b, self.off = b, off
    def __eq__(self, o): return isinstance(o, VPtr) and (o.b, o.off) == (self.b, self.off)
    def __hash__(self): return hash((self.b, self.off))
class VFn:
    def __init__(self, b, slot): self.b, self.slot = b, slot
    def __eq__(self, o): return isinstance(o, VFn) and (o.b, o.slot) == (self.b, self.slot)
    def __hash__(self): return hash((self.b, self.slot))
class _U:
    def __repr__(self): return 'UNDEF'
UNDEF = _U()
class Opaque:
    def __init__(self, what=''): self.what = what
    def __repr__(self): return 'Opaque(%s)' % self.what
class BoolInt:
    """a zero-extended symbolic Boolean"""
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __eq__(self, o): return isinstance(o, BoolInt) and o.b.eq(self.b)
    def __hash__(self): return hash(self.b)
class Probe:
    def __init__(self, off): self.off = off
class VecVal:
    def __init__(self, b): self.b = b
    def __eq__(self, o): return isinstance(o, VecVal) and o.b == self.b
    def __hash__(self): return hash(self.b)

class Block:
    __slots__ = ('id', 'kind', 'size', 'cells', 'freed', 'owned', 'ro', 'root', 'term', 'cls', 'excl', 'unf', 'name',
                 'n', 'ek', 'base', 'null', 'over', 'zero', 'frame', 'alias', 'init', 'owner', 'env')
    def __init__(self, id, kind, size=None):
        self.id, self.kind, self.size = id, kind, size
        self.cells = {}; self.freed = False; self.owned = False; self.ro = False
        self.root = self.term = self.cls = None; self.excl = frozenset(); self.unf = False; self.name = ''
        self.n = self.ek = self.base = self.null = None; self.over = (); self.zero = False
        self.frame = 0; self.alias = None; self.init = None; self.owner = None; self.env = None
    def copy(self):
        b = Block.__new__(Block)
        for s in Block.__slots__: setattr(b, s, getattr(self, s))
        b.cells = dict(self.cells)
        return b

class State:
    def __init__(self):
        self.blocks = {}; self.pc = []; self.forall = []; self.ghost = {}; self.trail = []
        self.own = set()
    def fork(self):
        s = State()
        s.blocks = dict(self.blocks); s.pc = list(self.pc); s.forall = list(self.forall); s.ghost = dict(self.ghost)
        s.trail = list(self.trail); s.own = set(); self.own = set()
        return s
    def w(self, bid):
        if bid not in self.own:
            self.blocks[bid] = self.blocks[bid].copy(); self.own.add(bid)
        return self.blocks[bid]
    def put(self, b): self.blocks[b.id] = b; self.own.add(b.id)

class Outcome:
    __slots__ = ('st', 'kind', 'val')
    def __init__(self, st, kind, val=None): self.st, self.kind, self.val = st, kind, val
    def __repr__(self): return 'Outcome(%s,%r)' % (self.kind, self.val)

class Obl:
    def __init__(self, unit, props, name, res, where, detail=''):
        self.unit, self.props, self.name, self.res, self.where, self.detail = unit, props, name, res, where, detail

MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

COV = set() if os.environ.get('VP_COV') else None     # development aid: blocks executed (tools/cov.py)
class Exec:
    def __init__(self, mod, prover, models, contracts, max_steps=400000, max_paths=3000):
        self.m, self.p = mod, prover
        self.models, self.con = models, contracts
        self.ids = itertools.count(1); self.fresh_n = itertools.count()
        self.max_steps = max_steps; self.max_paths = max_paths
        self.inv_mode = set(); self.loops = {}; self.obls = []; self.quiet = 0; self.ends = {}
        self.unit = '?'; self.safety_props = ('P12',); self.hints = {}
        self.globs = {}; self.inlined = set(); self.contracted = set(); self.modelled = set()
        self.loopinfo = {}; self.stats = {'loops': 0, 'paths': 0}
        models.x = self; contracts.x = self
        self.steps = 0; self.measure_loops = True
    # ------------------------------------------------------------ helpers
    def fresh(self, sort, pre='v'):
        return z3.Const('%s!%d' % (pre, next(self.fresh_n)), sort)
    def new_block(self, st, kind, size=None, name=''):
        b = Block(next(self.ids), kind, size); b.name = name; b.frame = self.depth if kind == 'stack' else 0
        st.put(b); return b
    def assume(self, st, f):
        if f is None or z3.is_true(f): return
        st.pc.append(f)
    def feasible(self, st): return self.p.feasible(st.pc, st.forall)
    def valid(self, st, goal):
        if z3.is_true(z3.simplify(goal)): return True
        return self.p.check(st.pc, goal, st.forall) == 'unsat'
    def oblige(self, st, props, name, goal, where='', forall_goal=None):
        """record and decide an obligation; goal is a z3 Bool or Python bool"""
        if self.quiet: return True
        if goal is not False: self.ends[id(st)] = (tuple(st.pc), list(st.forall), st)
        if goal is True: res = 'proved'
        elif goal is False:
            res = ('unknown' if st.ghost.get('loose') else 'failed') if self.feasible(st) else 'proved'
        else:
            r = self.p.check(st.pc, goal, st.forall)
            res = {'unsat': 'proved', 'sat': 'failed'}.get(r, 'unknown')
            if res == 'failed' and st.ghost.get('loose'): res = 'unknown'
            elif res == 'unknown' and self.p.second(st.pc, goal, st.forall): res = 'proved'
        self.obls.append(Obl(self.unit, tuple(props), name, res, where or self.where(), '' if res == 'proved' else self.describe(st, goal)))
        return res == 'proved'
    def describe(self, st, goal):
        d = ['obligation: %s' % (goal,), 'path: %s' % ' / '.join(st.trail[-12:])]
        if z3.is_expr(goal):
            try:
                r, m, s = self.p.check(st.pc, goal, st.forall, want_model=True)
                d.append('solver: %s' % r)
                if m is not None: d.append('countermodel: %s' % str(m)[:1500])
            except Exception as e: d.append('no model: %s' % e)
        return '\n'.join(d)
    def where(self): return ' < '.join(reversed([self.m.demangled(f)[:90] for f in self.stack[-3:]]))
    def cond(self, v):
        """i1 value -> z3 Bool or Python bool"""
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v & 1)
        if isinstance(v, BoolInt): return v.b
        if z3.is_bool(v): return v
        if z3.is_bv(v): return v != 0
        raise Unsupported('condition %r' % (v,))
    def branch(self, st, c, trail=None):
        """[(state, truth)] for the feasible truth values of c"""
        if isinstance(c, bool): return [(st, c)]
        c = z3.simplify(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        out = []
        a = st.fork(); a.pc.append(c)
        b = st; b2 = st.fork(); b2.pc.append(z3.Not(c))
        fa = self.p.feasible(a.pc, a.forall)
        if not fa: return [(b2, False)]
        fb = self.p.feasible(b2.pc, b2.forall)
        if not fb: return [(a, True)]
        return [(a, True), (b2, False)]
    # ------------------------------------------------------------ memory
    def bv(self, v, w=64):
        if isinstance(v, int): return z3.BitVecVal(v, w)
        if isinstance(v, BoolInt): return z3.If(v.b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v
    def real(self, v):
        if isinstance(v, Fraction):
            if v == LN10: return L.LIBM['log'](L.rv(10))      # the double nearest to ln 10 stands for ln 10
            return L.rv(v)
        if isinstance(v, (int,)): return L.rv(v)
        if isinstance(v, str): return self.special(v)
        return v
    def special(self, s): return z3.Const('real_' + s.replace('-', 'm'), L.R)
    def deref(self, st, p, what):
        """the block behind p, after safety checks; None if the path dies"""
        if isinstance(p, Opaque) or p is UNDEF: raise Unsupported('%s through %r' % (what, p))
        if not isinstance(p, Ptr): raise Unsupported('%s through %r' % (what, p))
        if p.b is None:
            self.oblige(st, self.safety_props, 'no null dereference (%s)' % what, False); return None
        b = st.blocks[p.b]
        if b.alias is not None: return self.deref(st, Ptr(b.alias, p.off, p.idx), what)
        if b.freed:
            self.oblige(st, self.safety_props, 'no use after free (%s)' % what, False); return None
        return b
    def touch_global(self, st, name):
        key = ('g', name)
        if key in st.blocks: return st.blocks[key]
        g = self.m.glob(name)
        b = Block(key, 'global', None); b.name = name
        if g is None or g[0] == 'alias':
            if g: return self.touch_global(st, g[1])
            st.put(b); return b
        try: b.size = self.m.size(g[1])
        except IRError: pass
        if g[2] is not None: self.flatten(g[1], g[2], 0, b.cells)
        b.ro = g[3]
        if not b.ro and not name.startswith('_ZGV') and '_ZGV' + name[2:] not in self.m.globals: self.havoc_cells(b)
        st.put(b); return b
    def havoc_cells(self, b):
        """mutable static storage: its content is whatever earlier calls left there"""
        for o, (n, v) in list(b.cells.items()):
            if isinstance(v, bytes): b.cells[o] = (n, Opaque('static storage'))
            elif isinstance(v, (Ptr, Fn, VecVal, Opaque)): b.cells[o] = (n, Opaque('static storage'))
            elif isinstance(v, Fraction) or (z3.is_expr(v) and z3.is_real(v)): b.cells[o] = (n, self.fresh(z3.RealSort(), 'static'))
            elif isinstance(v, (int, BoolInt)) or z3.is_expr(v): b.cells[o] = (n, self.fresh(z3.BitVecSort(8 * n), 'static'))
            else: b.cells[o] = (n, Opaque('static storage'))
        b.zero = False
    def havoc_statics(self, st):
        """a call by contract may change mutable static storage"""
        for k in list(st.blocks):
            if isinstance(k, tuple) and k[0] == 'g':
                b = st.blocks[k]
                if b.kind == 'global' and not b.ro and b.cells and not b.name.startswith('_ZGV') and '_ZGV' + b.name[2:] not in self.m.globals:
                    self.havoc_cells(st.w(k))
    def guard_release(self, st, p):
        """a local static has been initialised on this path (first call); on later calls it holds what an earlier call, made
        with other arguments, stored: the same value when it depends on nothing, an arbitrary one otherwise"""
        name = '_Z' + p.b[1][4:] if isinstance(p, Ptr) and isinstance(p.b, tuple) else None
        b = st.blocks.get(('g', name))
        if b is None: return [st]
        dep = False
        for n, v in b.cells.values():
            if isinstance(v, Ptr) and not (v.b is None or isinstance(v.b, tuple)) or isinstance(v, (VecVal, Opaque)): raise Unsupported('local static object %s' % name)
            if z3.is_expr(v) and not closed(v) or isinstance(v, BoolInt): dep = True
        if not dep: return [st]
        s2 = st.fork(); self.havoc_cells(s2.w(b.id)); s2.trail.append('later call')
        return [st, s2]
    def flatten(self, t, v, off, cells):
        m = self.m; t = m.resolve(t)
        if v[0] in ('zero', 'undef', 'null') and t.k in ('struct', 'array', 'pstruct'):
            n = len(t.a) if t.k != 'array' else t.n
            if t.k == 'array' and n > 4096: return
            for i in range(n):
                if t.k == 'array': self.flatten(t.a, v, off + i * m.size(t.a), cells)
                else:
                    o, ft = m.offset(t, i); self.flatten(ft, v, off + o, cells)
            return
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                o = i * m.size(t.a) if t.k == 'array' else m.offset(t, i)[0]
                self.flatten(et, ev, off + o, cells)
            return
        if v[0] == 'str':
            cells[off] = (len(v[1]), v[1]); return
        cells[off] = (m.size(t), self.const(None, t, v))
    def load(self, st, p, ty):
        """-> list of (st, value)"""
        t = self.m.resolve(ty)
        if isinstance(p, Probe): return [(st, Probe(p.off))]
        if isinstance(p, VPtr): return [(st, VFn(p.b, p.off // 8))]
        b = self.deref(st, p, 'read')
        if b is None: return []
        if b.kind == 'vec': return self.models.vec_load(st, b, p, t)
        n = self.m.size(t)
        if b.kind == 'global' and b.name.startswith('_ZGV'): return [(st, 0)]       # first call; see guard_release
        if t.k == 'struct' and getattr(p,'idx',None) is None and b.kind not in ('abs','opaque'):
            outs = [(st, ())]
            for i in range(len(t.a)):
                o, et = self.m.offset(t, i)
                outs = [(s2, acc + (x,)) for s1, acc in outs for s2, x in self.load(s1, Ptr(p.b, p.off + o), et)]
            return outs
        if b.kind == 'abs' and p.off == 0 and p.idx is None: return [(st, VPtr(b.id))]
        if b.kind == 'abs' and p.off not in b.cells:
            return self.con.abs_load(st, b, p, t)
        if b.kind == 'opaque': return [(st, Opaque('load'))]
        c = b.cells.get(p.off)
        if c is None:
            if b.zero: return [(st, self.zero(t))]
            if b.size is not None and (p.off < 0 or p.off + n > b.size):
                self.oblige(st, self.safety_props, 'read within bounds', False); return []
            return [(st, UNDEF)]
        if c[0] != n:
            if isinstance(c[1], Opaque): return [(st, c[1])]
            if t.k in ('struct',) : pass
            raise Unsupported('partial load of %d from cell of %d at +%d of %s' % (n, c[0], p.off, b.name))
        return [(st, self.coerce(c[1], t))]
    def coerce(self, v, t):
        if t.k == 'int' and t.a == 1: return self.i1(v)
        return v
    def i1(self, v):
        if isinstance(v, BoolInt): return v.b
        if isinstance(v, int): return v & 1
        return v
    def zero(self, t):
        if t.k == 'int': return 0
        if t.k in ('double', 'float'): return Fraction(0)
        if t.k == 'ptr': return NULL
        raise Unsupported('zero of %r' % t)
    def store(self, st, p, v, ty):
        t = self.m.resolve(ty)
        b = self.deref(st, p, 'write')
        if b is None: return []
        if b.kind == 'vec': return self.models.vec_store(st, b, p, v, t)
        n = self.m.size(t)
        if b.kind == 'opaque': return [st]
        if b.ro:
            c = b.cells.get(p.off)
            if not (c and same(c[1], v)):
                self.oblige(st, self.safety_props, 'borrowed input is not modified', False)
                return []
        if b.size is not None and (p.off < 0 or p.off + n > b.size):
            self.oblige(st, self.safety_props, 'write within bounds', False); return []
        if t.k == 'int' and t.a == 1 and z3.is_expr(v): v = BoolInt(v)
        if isinstance(v, tuple):
            ft = t
            for i, x in enumerate(v):
                o, et = self.m.offset(ft, i)
                r = self.store(st, Ptr(p.b, p.off + o), x, et)
                if not r: return r
            return [st]
        b = st.w(b.id)
        for o in list(b.cells):
            s = b.cells[o][0]
            if o != p.off and o < p.off + n and p.off < o + s:
                if isinstance(b.cells[o][1], Opaque) or b.cells[o][1] is UNDEF: del b.cells[o]
                else: raise Unsupported('overlapping store at +%d of %s' % (p.off, b.name))
        if b.cells.get(p.off) is not None and b.cells[p.off][0] > n and not isinstance(b.cells[p.off][1], Opaque):
            raise Unsupported('narrow store over wide cell')
        b.cells[p.off] = (n, v)
        return [st]
    def memcpy(self, st, d, s, n):
        if not isinstance(n, int): raise Unsupported('memcpy of symbolic size')
        if n == 0: return [st]
        sb = self.deref(st, s, 'memcpy source'); db = self.deref(st, d, 'memcpy destination')
        if sb is None or db is None: return []
        if sb.kind in ('vec',) or db.kind == 'vec': raise Unsupported('memcpy of vector data')
        if sb.kind == 'abs' and not sb.unf:
            raise Unsupported('memcpy from abstract object')
        db = st.w(db.id)
        if db.ro: self.oblige(st, self.safety_props, 'borrowed input is not modified', False); return []
        src = list(sb.cells.items())
        for o in [o for o in db.cells if d.off <= o < d.off + n]: del db.cells[o]
        for o, (k, v) in src:
            if s.off <= o and o + k <= s.off + n: db.cells[d.off + o - s.off] = (k, v)
            elif s.off <= o < s.off + n and isinstance(v, bytes) : db.cells[d.off + o - s.off] = (n, v)
        return [st]
    # ------------------------------------------------------------ values
    def const(self, st, ty, v):
        k = v[0]
        if k == 'int':
            t = self.m.resolve(ty); return v[1] & ((1 << t.a) - 1)
        if k == 'fp': return v[1]
        if k == 'null': return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = self.m.resolve(ty)
            if t.k == 'struct': return tuple(self.const(st, x, ('zero',)) for x in t.a)
            return self.zero(t)
        if k == 'g':
            n = v[1]
            if n in self.m.funcs or n in self.m.decls: return Fn(n)
            g = self.m.globals.get(n)
            if g and g[0] == 'alias' and (g[1] in self.m.funcs): return Fn(g[1])
            if st is not None: self.touch_global(st, n)
            return Ptr(('g', n), 0)
        if k == 'agg': return tuple(self.const(st, t, x) for t, x in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base = self.const(st, None, v[3][0][1])
                return self.gep(v[2], base, [(t, self.const(st, t, x)) for t, x in v[3][1:]])
            if v[1] in ('bitcast', 'ptrtoint', 'inttoptr'): return self.const(st, v[2], v[3])
        raise Unsupported('constant %r' % (v,))
    def val(self, st, regs, ty, v):
        if v[0] == 'loc':
            return regs[v[1]]
        return self.const(st, ty, v)
    def gep(self, bt, base, idx):
        m = self.m
        if isinstance(base, (Opaque,)): return base
        if base is UNDEF: raise Unsupported('gep on undefined pointer')
        t = bt; off = 0; sym = None
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                s = m.size(t)
                if isinstance(iv, int): off += sgn(iv, it.a) * s
                else: sym = (iv, s, it.a)
                continue
            t = m.resolve(t)
            if t.k in ('struct', 'pstruct'):
                o, t2 = m.offset(t, iv); off += o; t = t2
            elif t.k == 'array':
                if not isinstance(iv, int): raise Unsupported('symbolic array index')
                off += sgn(iv, it.a) * m.size(t.a); t = t.a
            else: raise Unsupported('gep into %r' % t)
        if isinstance(base, VPtr): return VPtr(base.b, base.off + off)
        if isinstance(base, Probe): return Probe(base.off + off)
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        if base.idx is not None:
            es = 8
            i = base.idx
            if sym is not None:
                if sym[1] != es: raise Unsupported('stride')
                x = self.bv(sym[0], sym[2]); x = z3.SignExt(64 - sym[2], x) if sym[2] < 64 else x
                i = z3.simplify(self.bv(i) + x) if not (isinstance(i, int) and i == 0) else x
            if off:
                if len(idx) == 1:
                    if off % es: raise Unsupported('stride')
                    k = off // es
                    i = (i + k) & MASK[64] if isinstance(i, int) else z3.simplify(i + k)
                    off = 0
            if off: return Ptr(base.b, base.off + off, i)
            return Ptr(base.b, base.off, i)
        if sym is not None: raise Unsupported('symbolic pointer arithmetic')
        return Ptr(base.b, base.off + off)
    # ------------------------------------------------------------ arithmetic
    def binop(self, op, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sgn(a, w) >> b) & M
            if op == 'udiv' and b: return a // b
            if op == 'urem' and b: return a % b
            if op == 'sdiv' and b:
                x, y = sgn(a, w), sgn(b, w); q = abs(x) // abs(y); return (q if (x < 0) == (y < 0) else -q) & M
            if op == 'srem' and b:
                x, y = sgn(a, w), sgn(b, w); q = abs(x) % abs(y); return (q if x >= 0 else -q) & M
            raise Unsupported('integer division by zero')
        if w == 1 or z3.is_bool(a) or z3.is_bool(b):
            x = z3.BoolVal(bool(a)) if isinstance(a, int) else self.cond(a)
            y = z3.BoolVal(bool(b)) if isinstance(b, int) else self.cond(b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if not r: raise Unsupported('i1 %s' % op)
            return z3.simplify(r(x, y))
        if isinstance(a, BoolInt) or isinstance(b, BoolInt):
            if op in ('and', 'or', 'xor'):
                f = lambda v: v.b if isinstance(v, BoolInt) else (z3.BoolVal(bool(v)) if isinstance(v, int) and v in (0, 1) else None)
                x, y = f(a), f(b)
                if x is not None and y is not None:
                    return BoolInt(z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y)))
        if a is UNDEF or b is UNDEF: raise Unsupported('arithmetic on undefined value')
        x, y = self.bv(a, w), self.bv(b, w)
        if not (z3.is_bv(x) and z3.is_bv(y)): raise Unsupported('binop %s on %r %r' % (op, a, b))
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]
        return z3.simplify(f())
    def fbin(self, op, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv' and b != 0: return a / b
        if a is UNDEF or b is UNDEF: raise Unsupported('arithmetic on undefined value')
        x, y = self.real(a), self.real(b)
        f = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}.get(op)
        if not f: raise Unsupported(op)
        return f()
    def icmp(self, st, pred, t, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque): return self.fresh(z3.BoolSort(), 'opq')
        if t.k == 'ptr' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.ptrcmp(st, pred, a, b)
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of undefined value')
        w = t.a
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pred])
        if isinstance(a, BoolInt) and isinstance(b, int) and b in (0, 1) and pred in ('eq', 'ne'):
            r = a.b if (b == 1) == (pred == 'eq') else z3.Not(a.b)
            return z3.simplify(r)
        if z3.is_bool(a) or z3.is_bool(b) or (isinstance(a, BoolInt) and isinstance(b, BoolInt)):
            x = self.cond(a); y = self.cond(b)
            x = z3.BoolVal(x) if isinstance(x, bool) else x; y = z3.BoolVal(y) if isinstance(y, bool) else y
            if pred == 'eq': return z3.simplify(x == y)
            if pred == 'ne': return z3.simplify(x != y)
            raise Unsupported('i1 icmp')
        x, y = self.bv(a, w), self.bv(b, w)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]
        return z3.simplify(f())
    def ptrcmp(self, st, pred, a, b):
        if pred not in ('eq', 'ne'):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b and a.idx is not None and b.idx is not None:
                return self.icmp(st, pred, Ty('int', 64), a.idx, b.idx)
            raise Unsupported('pointer order')
        r = None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            a, b = self.unalias(st, a), self.unalias(st, b)
            if a.b is None and b.b is None: r = a.off == b.off
            elif a.b is None or b.b is None: r = False
            elif a.b == b.b:
                if a.off != b.off: r = False
                elif same(a.idx, b.idx): r = True
                elif isinstance(a.idx, int) and isinstance(b.idx, int): r = a.idx == b.idx
                else: r = self.bv(a.idx) == self.bv(b.idx)
            else:
                x, y = st.blocks[a.b], st.blocks[b.b]
                if x.kind == 'abs' and y.kind == 'abs' and x.ro and y.ro and a.off == b.off == 0 and x.root == y.root and x.term is not None and y.term is not None:
                    k = tuple(sorted((str(x.id), str(y.id))))
                    c = z3.Const('same!%s!%s' % k, z3.BoolSort())
                    self.assume(st, z3.Implies(c, x.term == y.term)); r = c
                else: r = False
        elif isinstance(a, Fn) and isinstance(b, Fn): r = a.name == b.name
        elif isinstance(a, (Fn,)) and b == NULL or isinstance(b, Fn) and a == NULL: r = False
        else: raise Unsupported('pointer comparison %r %r' % (a, b))
        if isinstance(r, bool): return int(r == (pred == 'eq'))
        return r if pred == 'eq' else z3.Not(r)
    def unalias(self, st, p):
        while p.b is not None and p.b in st.blocks and st.blocks[p.b].alias is not None: p = Ptr(st.blocks[p.b].alias, p.off, p.idx)
        return p
    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of undefined value')
        k = pred[1:] if pred[0] in 'ou' else pred
        if pred == 'ord': return 1
        if pred == 'uno': return 0
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[k])
        x, y = self.real(a), self.real(b)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'lt': lambda: x < y, 'le': lambda: x <= y}[k]()
    def cast(self, op, t1, v, t2):
        if op in ('bitcast', 'inttoptr'): return v
        if op == 'ptrtoint':
            return v if not isinstance(v, Ptr) or v.b is not None else 0
        if v is UNDEF or isinstance(v, Opaque): return v
        if op == 'zext':
            if isinstance(v, int): return v
            if z3.is_bool(v): return BoolInt(v)
            if isinstance(v, BoolInt): return v
            return z3.simplify(z3.ZeroExt(t2.a - t1.a, v))
        if op == 'sext':
            if isinstance(v, int): return sgn(v, t1.a) & ((1 << t2.a) - 1)
            if z3.is_bool(v) or isinstance(v, BoolInt): raise Unsupported('sext bool')
            return z3.simplify(z3.SignExt(t2.a - t1.a, v))
        if op == 'trunc':
            if isinstance(v, int): return v & ((1 << t2.a) - 1)
            if isinstance(v, BoolInt): return v.b if t2.a == 1 else v
            if z3.is_bool(v): return v
            r = z3.simplify(z3.Extract(t2.a - 1, 0, v))
            return r == 1 if t2.a == 1 else r
        if op == 'sitofp':
            if isinstance(v, int): return Fraction(sgn(v, t1.a))
            if isinstance(v, BoolInt): return z3.If(v.b, L.rv(1), L.rv(0))
            if t1.a == 64: return L.i2r64(v)
            if t1.a == 32: return L.i2r32(v)
        if op == 'uitofp':
            if isinstance(v, int): return Fraction(v)
            if isinstance(v, BoolInt): return z3.If(v.b, L.rv(1), L.rv(0))
            if z3.is_bool(v): return z3.If(v, L.rv(1), L.rv(0))
            if t1.a == 64: return L.u2r64(v)
        if op == 'fptosi' and isinstance(v, Fraction) and v.denominator == 1: return int(v) & ((1 << t2.a) - 1)
        if op == 'fptosi':
            return z3.Function('fptosi%d' % t2.a, L.R, z3.BitVecSort(t2.a))(self.real(v))
        if op == 'fptrunc' and t2.k == 'float' or op == 'fptrunc' and getattr(t2, 'a', None) == 32:      # rounding to single precision is not the identity
            if isinstance(v, Fraction):
                import struct
                try: return Fraction(struct.unpack('f', struct.pack('f', float(v)))[0])
                except OverflowError: pass
            return z3.Function('f32', L.R, L.R)(self.real(v))
        if op in ('fpext', 'fptrunc'): return v
        raise Unsupported('cast %s %r' % (op, v))
    # ------------------------------------------------------------ control flow
    def loopsof(self, f):
        if f.name in self.loops: return self.loops[f.name]
        succ = {}
        for l in f.blocks:
            t = f.blocks[l][-1]
            if t.op == 'br': s = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': s = [t.a[2]] + [x[1] for x in t.a[3]]
            elif t.op == 'invoke': s = [t.a[3], t.a[4]]
            else: s = []
            succ[l] = s
        color, heads = {}, {}
        st = [(f.entry, iter(succ[f.entry]))]; color[f.entry] = 1
        while st:
            l, it = st[-1]
            for s in it:
                if color.get(s) == 1: heads.setdefault(s, set()).add(l)
                elif s not in color:
                    color[s] = 1; st.append((s, iter(succ.get(s, [])))); break
            else:
                color[l] = 2; st.pop()
        pred = {}
        for a, ss in succ.items():
            for s in ss: pred.setdefault(s, []).append(a)
        res = {}
        for h, ls in heads.items():
            body = {h}; w = list(ls)
            while w:
                x = w.pop()
                if x not in body: body.add(x); w.extend(pred.get(x, []))
            res[h] = body
        self.loops[f.name] = res
        return res
    depth = 0; stack = []
    def call_function(self, st, name, args):
        f = self.m.funcs[name]
        for rx, h in self.hints.get('calls', ()):          # instantiations replaced by their contract
            if rx.search(self.m.demangled(name)):
                r = h(self, st, args)
                if r is not None: self.contracted.add(self.m.demangled(name)[:150]); return r
        if len(self.stack) > 120: raise Unsupported('call depth')
        self.stack = self.stack + [name]; self.depth = len(self.stack)
        self.inlined.add(name)
        try:
            if self.stack.count(name) > 6: raise Unsupported('recursion without contract: %s' % self.m.demangled(name)[:120])
            regs = {}
            for (t, n), a in zip(f.params, args): regs[n] = a
            outs = self.run(f, regs, st, f.entry, None)
            d = self.depth
            for o in outs: self.pop_frame(o.st, d)
            return outs
        finally:
            self.stack = self.stack[:-1]; self.depth = len(self.stack)
    def pop_frame(self, st, d):
        for k in [k for k, b in st.blocks.items() if b.kind in ('stack', 'opaque') and b.frame >= d]:
            b = st.w(k); b.freed = True; b.cells = {}
    def run(self, f, regs, st, label, prev, stop=None, only=None):
        """run from label; stop: (header, body) of a cut loop -> ('back', ...) outcomes when its header is reached again"""
        work = [(regs, st, label, prev, 0, {})]; outs = []
        loops = self.loopsof(f); ctx = tuple(self.stack)
        first = True
        while work:
            regs, st, label, prev, idx, cnt = work.pop()
            if len(outs) + len(work) > self.max_paths: raise Budget('too many paths')
            if idx == 0:
                if stop and label == stop[0] and not first:
                    outs.append(Outcome(st, 'back', regs)); continue
                if stop and label not in stop[1]:
                    outs.append(Outcome(st, 'exit', (regs, label, prev))); first = False; continue
                if label in loops and not (first and stop and label == stop[0]):
                    inside = prev in loops[label]
                    key = (ctx, label)
                    if not inside:
                        if key in self.inv_mode:
                            if only is None or True:
                                for o in self.cut_loop(f, regs, st, label, prev, loops[label]):
                                    if o.kind == 'exit': work.append((o.val[0], o.st, o.val[1], o.val[2], 0, dict(cnt)))
                                    else: outs.append(o)
                            first = False
                            continue
                        cnt = dict(cnt); cnt[label] = (0, 0, 0)
                    else:
                        n, u, forks = cnt.get(label, (0, 0, 0))
                        if u > 0 or n > 80 or n >= 8 and forks >= n - 1:
                            self.inv_mode.add(key); raise NeedInvariant(str(key))
                        cnt = dict(cnt); cnt[label] = (n + 1, u, forks)
            first = False
            blk = f.blocks[label]
            if COV is not None: COV.add((f.name, label))
            i = idx; n = len(blk)
            while i < n:
                ins = blk[i]; i += 1
                self.steps += 1
                if self.steps > self.max_steps: raise Budget('step budget')
                op = ins.op
                if op == 'phi':
                    t, inc = ins.a
                    # phis read simultaneously; clang -O0 never makes them depend on each other
                    for v, l in inc:
                        if l == prev: regs[ins.dst] = self.val(st, regs, t, v); break
                    else: raise Unsupported('phi')
                elif op == 'br':
                    if len(ins.a) == 1: work.append((regs, st, ins.a[0], label, 0, cnt)); break
                    c = self.cond(self.val(st, regs, Ty('int', 1), ins.a[0]))
                    rs = self.branch(st, c)
                    for j, (s2, tv) in enumerate(rs):
                        c2 = cnt
                        if len(rs) == 2:
                            s2.trail.append('%s@%s' % ('T' if tv else 'F', label))
                            c2 = dict(cnt)
                            for h in cnt:
                                if h in loops and label in loops[h]:
                                    tgt = [x in loops[h] for x in ins.a[1:]]
                                    c2[h] = (cnt[h][0], cnt[h][1] + (not all(tgt)), cnt[h][2] + 1)
                        work.append((dict(regs) if len(rs) > 1 else regs, s2, ins.a[1] if tv else ins.a[2], label, 0, c2))
                    break
                elif op == 'switch':
                    t, v, d, cases = ins.a
                    x = self.val(st, regs, t, v)
                    if isinstance(x, int):
                        tgt = d
                        for cv, l in cases:
                            if (cv[1] & MASK[t.a]) == x: tgt = l
                        work.append((regs, st, tgt, label, 0, cnt)); break
                    cur = st
                    for cv, l in cases:
                        rs = self.branch(cur, self.bv(x, t.a) == (cv[1] & MASK[t.a])); cur = None
                        for s2, tv in rs:
                            if tv: work.append((dict(regs), s2, l, label, 0, cnt))
                            else: cur = s2
                        if cur is None: break
                    if cur is not None: work.append((dict(regs), cur, d, label, 0, cnt))
                    break
                elif op == 'ret':
                    t, v = ins.a
                    outs.append(Outcome(st, 'ret', None if v is None else self.val(st, regs, t, v))); break
                elif op == 'unreachable':
                    outs.append(Outcome(st, 'unreachable')); break
                elif op == 'resume':
                    outs.append(Outcome(st, 'throw', st.ghost['exc'])); break
                elif op in ('call', 'invoke'):
                    rty, cal, args = ins.a[:3]
                    if cal[0] == 'g' and cal[1].startswith('llvm.') and cal[1].split('.')[1] in ('lifetime', 'dbg', 'assume', 'experimental'): continue
                    fv = self.val(st, regs, None, cal) if cal[0] != 'g' else Fn(cal[1])
                    av = [self.val(st, regs, t, v) for t, v in args]
                    rs = self.call(st, fv, av, rty, ins)
                    ok = [o for o in rs if o.kind == 'ret']
                    for o in rs:
                        if o.kind == 'ret':
                            r2 = regs if len(rs) == 1 else dict(regs)
                            if ins.dst is not None: r2[ins.dst] = o.val
                            if op == 'invoke': work.append((r2, o.st, ins.a[3], label, 0, cnt))
                            else: work.append((r2, o.st, label, prev, i, cnt))
                        elif o.kind == 'throw':
                            if op == 'invoke':
                                o.st.ghost['exc'] = o.val
                                work.append((dict(regs), o.st, ins.a[4], label, 0, cnt))
                            else: outs.append(o)
                        else: outs.append(o)
                    break
                else:
                    r = self.simple(st, regs, ins)
                    if r is not None:     # forked
                        for s2, v in r:
                            r2 = dict(regs) if len(r) > 1 else regs
                            if ins.dst is not None: r2[ins.dst] = v
                            if len(r) == 1 and s2 is st: continue
                            work.append((r2, s2, label, prev, i, cnt))
                        if len(r) == 1 and r[0][0] is st: continue
                        break
        return outs
    def simple(self, st, regs, ins):
        op, a = ins.op, ins.a
        V = lambda t, v: self.val(st, regs, t, v)
        if op == 'alloca':
            n = 1
            if a[1] is not None:
                n = V(*a[1])
                if not isinstance(n, int): raise Unsupported('alloca of symbolic size')
            b = self.new_block(st, 'stack', self.m.size(a[0]) * n, (ins.dst or '') + '@' + self.stack[-1][-40:])
            regs[ins.dst] = Ptr(b.id, 0); return None
        if op == 'load':
            return self.load(st, V(None, a[1]), a[0])
        if op == 'store':
            r = self.store(st, V(None, a[2]), V(a[0], a[1]), a[0])
            return [(s, None) for s in r]
        if op == 'getelementptr':
            regs[ins.dst] = self.gep(a[0], V(None, a[1]), [(t, V(t, v)) for t, v in a[2]]); return None
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            x, y = V(a[0], a[1]), V(a[0], a[2])
            if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.b != y.b: raise Unsupported('pointer difference')
                if x.idx is not None: regs[ins.dst] = self.binop('mul', 64, self.binop('sub', 64, x.idx, y.idx), 8)
                else: regs[ins.dst] = (x.off - y.off) & MASK[64]
                return None
            regs[ins.dst] = self.binop(op, a[0].a, x, y); return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            regs[ins.dst] = self.fbin(op, V(a[0], a[1]), V(a[0], a[2])); return None
        if op == 'fneg':
            x = V(*a); regs[ins.dst] = -x if isinstance(x, Fraction) else -self.real(x); return None
        if op == 'icmp': regs[ins.dst] = self.icmp(st, a[0], a[1], V(a[1], a[2]), V(a[1], a[3])); return None
        if op == 'fcmp': regs[ins.dst] = self.fcmp(a[0], V(a[1], a[2]), V(a[1], a[3])); return None
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            regs[ins.dst] = self.cast(op, a[0], V(a[0], a[1]), a[2]); return None
        if op == 'select':
            c = self.cond(V(Ty('int', 1), a[0])); x, y = V(a[1], a[2]), V(a[1], a[3])
            rs = self.branch(st, c)
            if len(rs) == 1:
                regs[ins.dst] = x if rs[0][1] else y
                if rs[0][0] is not st: st.pc = rs[0][0].pc
                return None
            return [(s, x if t else y) for s, t in rs]
        if op == 'landingpad':
            regs[ins.dst] = self.landing(st, a); return None
        if op == 'extractvalue':
            v = V(a[0], a[1])
            for k in a[2]: v = v[k]
            regs[ins.dst] = v; return None
        if op == 'insertvalue':
            v = V(a[0], a[1]); e = V(None, a[2])
            if v is UNDEF: v = tuple(UNDEF for _ in self.m.resolve(a[0]).a)
            if len(a[3]) != 1: raise Unsupported('insertvalue')
            v = list(v); v[a[3][0]] = e; regs[ins.dst] = tuple(v); return None
        if op == 'freeze': regs[ins.dst] = V(*a); return None
        raise Unsupported('instruction %s' % ins.line[:100])
    def landing(self, st, a):
        t, cleanup, clauses = a
        exc = st.ghost['exc']       # (typename or None for unknown, ptr)
        sel = 0
        for kind, v in clauses:
            if kind != 'catch': continue
            if v[0] == 'null': sel = self.tid(None); break
            tn = v[1]
            if exc[0] is None or exc[0] not in self.con.hier_types(): 
                if exc[0] == tn: sel = self.tid(tn); break
                if exc[0] is None or exc[0] == '?': raise Unsupported('catch of an exception of unknown type')
                continue
            if tn in self.con.supers(exc[0]): sel = self.tid(tn); break
        return (exc[1] if isinstance(exc[1], (Ptr, Opaque)) else Opaque('exc'), sel)
    _tids = {}
    def tid(self, n):
        return self._tids.setdefault(n, len(self._tids) + 1)
    # ------------------------------------------------------------ calls
    def call(self, st, fv, args, rty, ins):
        if isinstance(fv, VFn): return self.con.virtual(st, fv, args, rty)
        if isinstance(fv, Opaque): raise Unsupported('call through opaque')
        if not isinstance(fv, Fn): raise Unsupported('call of %r' % (fv,))
        n = fv.name
        g = self.m.globals.get(n)
        if g and g[0] == 'alias': n = g[1]
        if n.startswith('llvm.'): return self.models.intrinsic(st, n, args, rty)
        r = self.models.try_model(st, n, args, rty)
        if r is not None: return r
        r = self.con.try_contract(st, n, args, rty)
        if r is not None: return r
        if n in self.m.funcs: return self.call_function(st, n, args)
        raise Unsupported('external function %s' % self.m.demangled(n)[:160])
    # ------------------------------------------------------------ loops
    def cut_loop(self, f, regs, st, h, prev, body):
        """Inductive treatment of a symbolic loop.  Returns outcomes: 'exit' (leaves the loop), 'ret', 'throw'..."""
        from loops import cut
        return cut(self, f, regs, st, h, prev, body)
