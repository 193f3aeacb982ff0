"""Verification units: one per override of a contracted method (class x method),
discharged against the method's contract."""
import z3, time, traceback
import logic as L
from logic import Expr, Op
from exec import *
from contracts import *
from models import Models

envA = z3.Const('envA', L.EnvS)

class Result:
    def __init__(self, name):
        self.name = name; self.obls = []; self.err = None; self.time = 0; self.funcs = set(); self.paths = 0; self.fn = ''
        self.contracted = set(); self.modelled = set(); self.ret = 0; self.reach = ''
    def bad(self): return [o for o in self.obls if o.res != 'proved']

class Session:
    def __init__(self, mod, prover=None):
        self.m = mod; self.p = prover or L.Prover()
        self.con0 = Contracts(mod)
    def engine(self, hints=None):
        con = self.con0; con.measure = None
        x = Exec(self.m, self.p, Models(), con)
        x.unit_key = None; x.hints = hints or {}
        return x
    def reach(self, x):
        """vacuity guard: the assumptions of at least one path on which an obligation was discharged are not contradictory"""
        k = 0
        for pc, fa, st in reversed(list(x.ends.values())):
            res = self.p.check(list(pc), None, fa, timeout=2000); k += 1
            if res != 'unsat': return res
            if k >= 40: return ''
        return 'vacuous' if k else ''
    def run(self, name, body, hints=None):
        """body(x) executes the unit; restarted with loop invariants when a loop needs them"""
        r = Result(name); t0 = time.time(); inv = set(); x = None
        for _ in range(8):
            x = self.engine(hints); x.unit = name; x.inv_mode = inv
            try: body(x); r.err = None; break
            except NeedInvariant: continue
            except Unsupported as e: r.err = 'unsupported: %s' % e; break
            except DeadPath: r.err = None; break
            except Exception as e:
                r.err = 'internal: %s\n%s' % (e, ''.join(traceback.format_tb(e.__traceback__)[-4:])); break
        else: r.err = 'loop invariants'
        if not r.err and any(o.res == 'proved' for o in x.obls) and all(o.res == 'proved' for o in x.obls): r.reach = self.reach(x)
        r.obls = x.obls; r.time = time.time() - t0; r.funcs = x.inlined; r.contracted = x.contracted; r.modelled = x.modelled
        r.paths = x.stats['paths']; r.ret = x.stats.get('ret', 0)
        return r

# -------------------------------------------------------------------- exits
def walk(x, st, p, seen, props):
    """the owned structure below p: every part reached once"""
    if not isinstance(p, Ptr) or p.b is None or not isinstance(p.b, int): return True
    b = st.blocks[p.b]
    if b.freed: return x.oblige(st, props, 'result does not contain a destroyed object', False)
    if b.ro or not b.owned: return x.oblige(st, props, 'result shares no part with its inputs', False)
    if b.id in seen: return x.oblige(st, props, 'no part of the result is owned twice', False)
    seen.add(b.id)
    walk_cells(x, st, b, seen, props)
def walk_cells(x, st, b, seen, props):
    for o, (n, v) in b.cells.items():
        if isinstance(v, Ptr) and isinstance(v.b, int): walk(x, st, v, seen, props)
        elif isinstance(v, VecVal): walk_vec(x, st, v, seen, props)
def walk_vec(x, st, v, seen, props):
    b = st.blocks[v.b]
    if b.freed or b.ro or b.id in seen: return x.oblige(st, props, 'result owns its component array', False)
    seen.add(b.id)
    if b.ek == 'rtexpr':
        for i, w in b.over: walk(x, st, w, seen, props)
def leaks(x, st, seen, props=('P12',)):
    for k, b in st.blocks.items():
        if b.owned and not b.freed and b.id not in seen and b.kind in ('heap', 'abs', 'vec') and b.name != 'exception':
            x.oblige(st, props, 'no leak (%s)' % b.name, False); return
    x.oblige(st, props, 'every object is freed or owned by the result', True)

def finish_ptr(x, st, p, props=('P11', 'P12')):
    seen = set(); walk(x, st, p, seen, props); leaks(x, st, seen)
    return x.con.fold(st, p)

# -------------------------------------------------------------------- arguments
def sym_expr(x, h):
    """constructor term of head h with fresh components"""
    s = {'Const': [L.R], 'ConstL': [L.BV64], 'ConstI': [L.BV32], 'Var': [L.BV64], 'Fun': [L.BV64] * 2, 'Un': [Op, Expr], 'Bin': [Op, Expr, Expr], 'Vec': [L.VecS]}[h]
    return getattr(Expr, h)(*[x.fresh(q, h.lower()) for q in s])
def sym_op(x, h):
    s = {'PD': [L.BV64], 'SINT': [L.BV64], 'INT': [Expr, Expr, L.BV64]}.get(h)
    return getattr(Op, h)(*[x.fresh(q, h.lower()) for q in s]) if s else getattr(Op, h)
def env_arg(x, st, env, name='point'):
    d = x.new_block(st, 'vec', None, name); d.ek = 'double'; d.n = L.envsize(env); d.base = lambda k: L.envget(env, k); d.env = env; d.ro = True
    o = x.new_block(st, 'ext', 24, name); o.ro = True; o.cells[0] = (24, VecVal(d.id)); return Ptr(o.id, 0)
def list_arg(x, st, lst, name='list'):
    d = x.new_block(st, 'vec', None, name); d.ek = 'eptr'; d.n = L.plen(lst); d.base = lambda k: L.pget(lst, k); d.null = False; d.env = lst; d.ro = True
    o = x.new_block(st, 'ext', 24, name); o.ro = True; o.cells[0] = (24, VecVal(d.id)); return Ptr(o.id, 0)
def fw_arg(x, st, root, f):
    b = x.new_block(st, 'abs', None, 'functor'); b.root = root; b.term = f; b.ro = True
    o = x.new_block(st, 'ext', 8, 'functor wrapper'); o.ro = True; o.cells[0] = (8, Ptr(b.id, 0)); return Ptr(o.id, 0)
def trunc(v, w=64): return v

def boolval(x, v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if isinstance(v, BoolInt): return v.b
    if z3.is_bool(v): return v
    if z3.is_bv(v): return v != 0
    raise Unsupported('boolean result %r' % (v,))

def no_throw(x, o, key, why=None):
    x.oblige(o.st, PROPS[key] if why is None else why, 'no exception', False)

# -------------------------------------------------------------------- override units
def override_body(x, con, root, t, key, fn):
    if key in ('D0', 'D1'): return dtor_body(x, con, root, t, key, fn)
    st = State(); h = con.ctor[t]
    T = sym_expr(x, h) if root == 'E' else sym_op(x, h)
    b = x.new_block(st, 'abs', None, 'this'); b.root = root; b.term = T; b.ro = True
    con.unfold(st, b.id, t)
    if key == 'diff' and root == 'E' and h == 'Bin': st.pc.append(L.bok(T.arg(0)))      # well-formed trees: binary nodes hold binary operators
    this = Ptr(b.id, 0); f = x.m.funcs[fn]; x.unit_key = key
    rank = 0 if key in ('equal', 'osimplify', 'odiff2', 'odiff3', 'ocan2', 'ocan0') else 1
    con.measure = (LEVEL[key], L.size(T) if root == 'E' else L.osize(T), rank)
    args = [this]; env = envA
    other = lambda n: con.borrowed(st, z3.Const(n, Expr), 'E', n)
    e = z3.Const('arg1', Expr); r = z3.Const('arg2', Expr); v = z3.Const('arg3', Expr)
    xr = z3.Real('x'); yr = z3.Real('y')
    if key in ('deep_equal', 'shallow_equal'): con.measure = (LEVEL[key], L.size(T) + L.size(e), rank)
    if key == 'evalv': args.append(env_arg(x, st, env))
    elif key == 'eval1': args.append(xr); env = L.env1(xr)
    elif key in ('shallow_equal', 'deep_equal', 'diff'): args.append(other('arg1'))
    elif key == 'subst': args += [other('arg1'), other('arg2')]
    elif key == 'substL':
        le, lr = z3.Const('search', L.ListS), z3.Const('repl', L.ListS)
        x.assume(st, L.plen(le) == L.plen(lr)); args += [list_arg(x, st, le, 'search list'), list_arg(x, st, lr, 'replacement list')]
    elif key in ('manip', 'trav'):
        F = z3.Const('functor', L.FunS); args.append(fw_arg(x, st, 'M' if key == 'manip' else 'T', F))
        st.ghost['trace'] = z3.Const('trace0', L.TrS)
    elif key == 'equal':
        oo = z3.Const('otherop', Op); con.measure = (1, L.osize(T) + L.osize(oo), 0); args.append(con.borrowed(st, oo, 'O', 'other operator'))
    elif key == 'apply1': args.append(xr)
    elif key == 'apply2': args += [xr, yr]
    elif key == 'odiff2': args += [other('arg1'), other('arg2')]; con.measure = (5, L.size(Expr.Un(T, e)), 0)
    elif key == 'odiff3': args += [other('arg1'), other('arg2'), other('arg3')]; con.measure = (5, L.size(Expr.Bin(T, e, r)), 0)
    elif key in ('osimplify', 'ocan2'):
        args += [other('arg1'), other('arg2')]; con.measure = (LEVEL[key], L.size(Expr.Bin(T, e, r)), 0)
        x.assume(st, z3.Not(z3.And(L.isconst(e), L.isconst(r))))
    if f.sret or (f.rty.k == 'void' and key == 'str'):
        o = x.new_block(st, 'opaque', None, 'string result'); args.insert(0, Ptr(o.id, 0))
    x.assume(st, z3.BoolVal(True))
    outs = x.call_function(st, fn, args)
    P = PROPS.get(key, ('P12',))
    for o in outs:
        x.stats['paths'] += 1
        try: check_override(x, con, root, T, key, o, env, P, locals())
        except DeadPath: pass

def check_override(x, con, root, T, key, o, env, P, V):
    s = o.st; g = V.get
    e, r, v = g('e'), g('r'), g('v')
    if o.kind == 'unreachable': x.oblige(s, P, 'no undefined control flow', False); return
    if o.kind == 'abort':
        if key in ('osimplify', 'simplify') and root in ('E', 'O'):
            l2, r2 = (e, r) if root == 'O' else ((T.arg(1), T.arg(2)) if T.decl().name() == 'Bin' else (T, T))
            x.oblige(s, P, 'assertion fails only for vectors of different or zero length',
                     z3.And(Expr.is_Vec(l2), Expr.is_Vec(r2), z3.Or(L.vlen(Expr.vec(l2)) != L.vlen(Expr.vec(r2)), L.vlen(Expr.vec(l2)) == 0)))
        else: x.oblige(s, P, 'no failing assertion', False)
        return
    thr = o.kind == 'throw'
    if not thr: x.stats['ret'] = x.stats.get('ret', 0) + 1
    exc = o.val[0] if thr else None
    if key in ('evalv', 'eval1'):
        ok = L.evok(T, env)
        if thr:
            if IDX_EXC in str(exc): x.oblige(s, ('P02',), 'index exception only for an out-of-range variable', z3.Not(ok))
            else: x.oblige(s, ('P02',), 'another exception only when the expression has a part without numeric value', z3.Not(L.numeric(T)))
            x.oblige(s, ('P01',), 'exception only when there is no value', z3.Not(ok)); return
        x.oblige(s, ('P01', 'P02'), 'a number only when every part has a value', ok)
        x.oblige(s, ('P01',), 'result is the mathematical value', x.real(o.val) == L.ev(T, env))
        leaks(x, s, set()); return
    if key == 'unwrap':
        ok = L.evok(T, L.env0)
        if thr: x.oblige(s, ('P13',), 'unwrap raises only when there is no value', z3.Not(ok)); return
        x.oblige(s, ('P13',), 'unwrap succeeds only when there is a value', ok)
        x.oblige(s, ('P13',), 'unwrap returns the value', x.real(o.val) == L.ev(T, L.env0)); leaks(x, s, set()); return
    if key in ('apply1', 'apply2'):
        ok = L.uok(T) if key == 'apply1' else L.bok(T)
        if thr: x.oblige(s, ('P01',), 'operator raises only when it has no value', z3.Not(ok)); return
        x.oblige(s, ('P01',), 'operator has a value', ok)
        w = L.uapp(T, V['xr']) if key == 'apply1' else L.bapp(T, V['xr'], V['yr'])
        x.oblige(s, ('P01',), 'operator computes its mathematical function', x.real(o.val) == w); return
    if key in ('diff', 'odiff2', 'odiff3'):
        t, vv = (T, e) if key == 'diff' else (Expr.Un(T, e), r) if key == 'odiff2' else (Expr.Bin(T, e, r), v)
        ok = L.difok(t, vv)
        if key == 'odiff2': ok = z3.And(z3.Not(L.bok(T)), ok)
        if key == 'odiff3': ok = z3.And(L.bok(T), ok)
        if thr: x.oblige(s, P, 'differentiation raises only where no rule exists', z3.Not(ok)); return
        x.oblige(s, P, 'differentiation succeeds only where a rule exists', ok)
        d = finish_ptr(x, s, o.val)
        if T.sort() == Expr and T.decl().name() == 'Vec':
            k = z3.Const('comp', L.BV64); D = d.arg(0) if L.Query.ctor(d) and d.decl().name() == 'Vec' else Expr.vec(d); w = T.arg(0)
            x.oblige(s, ('P15',), 'derivative of a vector is a vector', Expr.is_Vec(d))
            x.oblige(s, ('P15',), 'derivative keeps the number of components', L.vlen(D) == L.vlen(w))
            s2 = s.fork(); s2.pc.append(z3.ULT(k, L.vlen(w)))
            x.oblige(s2, ('P15',), 'each component is the derivative of the component', L.vget(D, k) == L.dterm(L.vget(w, k), vv))
            return
        for p, l, fm in con.diff_post(t, vv, d)(env): x.oblige(s, p, l, fm)
        return
    if thr: no_throw(x, o, key); return
    if key == 'str': leaks(x, s, set()); return
    if key == 'is_unary':
        x.oblige(s, P, 'is_unary is true exactly for non-binary nodes', boolval(x, o.val) == (z3.Not(Expr.is_Bin(T)) if root == 'E' else z3.Not(L.bok(T)))); return
    if key == 'is_constant': x.oblige(s, P, 'is_constant exactly for constants and binary nodes of constants', boolval(x, o.val) == L.isconst(T)); leaks(x, s, set()); return
    if key == 'deep_equal': x.oblige(s, P, 'deep equality is tree equality', boolval(x, o.val) == (T == e)); leaks(x, s, set()); return
    if key == 'shallow_equal': x.oblige(s, P, 'shallow equality compares the root kind', boolval(x, o.val) == samehead(T, e)); return
    if key == 'equal': x.oblige(s, P, 'operator equality includes the parameters', boolval(x, o.val) == (T == V['oo'])); leaks(x, s, set()); return
    if key == 'can_simplify': x.oblige(s, P, 'can_simplify exactly when a rule applies somewhere', boolval(x, o.val) == L.cs(T)); leaks(x, s, set()); return
    if key == 'ocan0': x.oblige(s, P, 'only numeric operators can be evaluated away', z3.Implies(boolval(x, o.val), L.uok(T))); return
    if key == 'ocan2':
        x.oblige(s, P, 'can_simplify exactly when a rule applies somewhere', z3.Implies(L.bok(T), boolval(x, o.val) == L.cs(Expr.Bin(T, e, r)))); leaks(x, s, set()); return
    if key == 'trav':
        x.oblige(s, P, 'traversal visits the specified nodes in the specified order', s.ghost['trace'] == L.trav(V['st'].ghost['trace'] if False else z3.Const('trace0', L.TrS), V['F'], T)); leaks(x, s, set()); return
    # pointer results
    if key == 'osimplify' and T.decl().name() not in L.BOPS:
        if o.val != NULL: finish_ptr(x, s, o.val)
        return
    R = finish_ptr(x, s, o.val)
    if key == 'clone': x.oblige(s, P, 'clone is the same tree', R == T)
    elif key == 'subst': x.oblige(s, P, 'substitution replaces exactly the matching sub-expressions', R == L.subst(T, e, r))
    elif key == 'substL': x.oblige(s, P, 'parallel first-match substitution', R == L.substL(T, V['le'], V['lr']))
    elif key == 'manip': x.oblige(s, P, 'manipulation rebuilds the tree around the modified nodes', R == L.manip(V['F'], T))
    elif key in ('simplify', 'osimplify'):
        t = T if key == 'simplify' else Expr.Bin(T, e, r)
        at, gl = con.simp_post(t, R)
        for p, l, fm in at(env) + gl: x.oblige(s, p, l, fm)
    else: raise Unsupported('no post for %s' % key)

def dtor_body(x, con, root, t, key, fn):
    st = State(); h = con.ctor[t]
    T = sym_expr(x, h) if root == 'E' else sym_op(x, h)
    b = x.new_block(st, 'abs', None, 'this'); b.root = root; b.term = T; b.owned = True
    con.unfold(st, b.id, t); x.unit_key = 'dtor'; con.measure = None
    for o in x.call_function(st, fn, [Ptr(b.id, 0)]):
        x.stats['paths'] += 1
        if o.kind != 'ret': x.oblige(o.st, ('P12',), 'destructor returns', False); continue
        x.stats['ret'] = x.stats.get('ret', 0) + 1
        if key == 'D1': o.st.w(b.id).freed = True
        else: x.oblige(o.st, ('P12',), 'deleting destructor frees the object', o.st.blocks[b.id].freed is True)
        leaks(x, o.st, set())

def override_units(con):
    """(name, root, class typeinfo, key, function) for every class and contracted method"""
    out = []
    for t, h in sorted(con.ctor.items()):
        r = con.rootof[t]; vt, fs = con.vt[t]
        for i, f in enumerate(fs):
            k = con.slots[r].get(i)
            if k is None or f is None or f == '__cxa_pure_virtual': continue
            if k == 'osimplify' and h not in L.BOPS: continue      # precondition (binary operator) excludes it
            nm = {'Const': 'rt_constant<double>', 'ConstL': 'rt_constant<long>', 'ConstI': 'rt_constant<int>'}.get(h, h)
            out.append(('%s.%s' % (nm, k), r, t, k, f))
    return out
