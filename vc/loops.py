"""Inductive treatment of a loop whose trip count is symbolic.

The locations the loop modifies are found by running the body; they are
replaced by fresh values constrained by an invariant, the body is executed once
from that arbitrary iteration, and the invariant is the greatest subset of the
candidate facts that holds on entry and is preserved (Houdini).  Candidates are
generated from the entry state and from what one arbitrary iteration does
(values stored per index, branch conditions taken), never from the source text.
Surviving facts, memory safety of the body, absence of leaks per iteration and
termination (a variant) are recorded as obligations.
"""
import z3
import logic as L
from logic import Expr, Op
from exec import *

vnull = L.F('vnull', L.VecS, L.BV64, L.B)
lnull = L.F('lnull', L.ListS, L.BV64, L.B)
SORT = {'double': (L.EnvS, L.envget, None), 'rtexpr': (L.VecS, L.vget, vnull), 'eptr': (L.ListS, L.pget, lnull)}

class Cand:
    def __init__(self, name, kind, fn, trig=(), det=None):
        self.det = det           # the location whose value the fact determines
        self.name, self.kind, self.fn, self.trig = name, kind, fn, tuple(trig)

def kills(x, st, p):
    """silently absorb the owned object p into an abstract value"""
    if not isinstance(p, Ptr) or not isinstance(p.b, int): return
    b = st.blocks[p.b]
    if b.freed or b.ro or b.kind not in ('abs', 'heap'): return
    b = st.w(b.id); b.freed = True
    for n, v in list(b.cells.values()):
        if isinstance(v, Ptr): kills(x, st, v)
        elif isinstance(v, VecVal):
            vb = st.w(v.b); vb.freed = True
            for i, w in vb.over: kills(x, st, w)

def islive(st, v):
    return isinstance(v, Ptr) and isinstance(v.b, int) and v.b in st.blocks and not st.blocks[v.b].freed

def kind_of(x, st0, st1, n, v0, v1):
    if v0 is None or v1 is None or v0 is UNDEF or v1 is UNDEF: return ('dead',)
    if isinstance(v0, Opaque) or isinstance(v1, Opaque): return ('opaque',)
    def isint(v): return (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and z3.is_bv(v))
    def isb(v): return isinstance(v, BoolInt) or (isinstance(v, int) and v in (0, 1))
    if n == 1 and isb(v0) and isb(v1): return ('bool',)
    if isint(v0) and isint(v1): return ('bv', n * 8)
    def isr(v): return isinstance(v, Fraction) or (z3.is_expr(v) and v.sort() == L.R)
    if isr(v0) and isr(v1): return ('real',)
    if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.idx is not None and v1.idx is not None and v0.b == v1.b: return ('idx', v0.b)
    if islive(st0, v0) and islive(st1, v1):
        try: a = x.con.fold(st0.fork(), v0); b = x.con.fold(st1.fork(), v1)
        except Exception: return ('dead',)
        if a.sort() == b.sort() and st1.blocks[v1.b].owned and not st1.blocks[v1.b].ro and st0.blocks[v0.b].owned: return ('tree', 'E' if a.sort() == Expr else 'O')
    return ('dead',)

def changed(x, H, s, pre):
    """locations of pre-existing blocks that differ between two states"""
    out = {}
    for bid in pre:
        a, b = H.blocks[bid], s.blocks[bid]
        if a is b or a.freed: continue
        if b.freed:
            if a.kind in ('heap', 'abs', 'vec'): out[('freed', bid)] = None
            continue
        if a.kind == 'vec':
            if len(a.over) != len(b.over) or not same(a.n, b.n) or any(not (same(i, k) and same(v, w)) for (i, v), (k, w) in zip(a.over, b.over)):
                # elements materialised by reading are not changes
                if not (same(a.n, b.n) and only_reads(x, H, s, a, b)): out[('vec', bid)] = None
            continue
        for o in set(a.cells) | set(b.cells):
            u, v = a.cells.get(o), b.cells.get(o)
            if u is None and a.kind == 'abs': continue          # lazily expanded
            if u is v or (u and v and same(u[1], v[1])): continue
            out[('cell', bid, o)] = (v or u)[0]
    return out

class Rep:
    """text written by the iterations of a loop: for every value k of the counter from start
    up to (excluding) upto, the pieces of some item whose conditions hold for k"""
    def __init__(self, cid): self.cid = cid; self.items = None; self.c = self.start = None
def samep(p, q): return len(p) == len(q) and all(same(a, b) for a, b in zip(p, q))
def samet(u, v):
    if u is None or v is None: return u is v
    return len(u) == len(v) and all(samep(a, b) if isinstance(a, tuple) and isinstance(b, tuple) else a == b for a, b in zip(u, v))
def texts(a, b):
    """text objects (strings, streams, maps) that differ between two states"""
    for tab in ('str', 'ss', 'map'):
        ta, tb = a.ghost.get(tab, {}), b.ghost.get(tab, {})
        if ta is tb: continue
        for k in set(ta) | set(tb):
            u, v = ta.get(k), tb.get(k)
            bid = k[0] if isinstance(k, tuple) else k
            if u is not v and not samet(u, v) and bid in a.blocks and not a.blocks[bid].freed: yield tab, k, u, v

def only_reads(x, H, s, a, b):
    if len(b.over) < len(a.over): return False
    for (i, v), (k, w) in zip(a.over, b.over):
        if not (same(i, k) and same(v, w)): return False
    for k, w in b.over[len(a.over):]:
        if not (isinstance(w, Ptr) and isinstance(w.b, int)): return False
        e = s.blocks[w.b]
        if w.b in H.blocks or e.name != 'element' or e.freed or a.base is None: return False
        if not (z3.is_expr(e.term) and e.term.eq(a.base(x.bv(k)))): return False
    return True

class Slots:
    def __init__(self): self.kind = {}      # loc -> kind
    def names(self): return sorted(self.kind, key=str)

def cut(x, f, regs, st, h, prev, body):
    con = x.con; M = x.models
    x.stats['loops'] += 1; cid = next(x.fresh_n)
    pre = [k for k, b in st.blocks.items() if not b.freed]
    entry = st
    mod = {}                     # loc -> kind
    cands = []; generated = set(); dropped = set()
    skk = z3.Const('loop_k', L.BV64); ske = z3.Const('loop_env', L.EnvS)
    consts = {}; reps = {}

    def value(s, loc):
        if loc[0] == 'vec':
            b = s.blocks[loc[1]]
            return b
        c = s.blocks[loc[1]].cells.get(loc[2]); k = mod[loc]; v = c[1]
        if k[0] == 'bv': return x.bv(v, k[1])
        if k[0] == 'bool': return x.cond(v) if not isinstance(x.cond(v), bool) else z3.BoolVal(x.cond(v))
        if k[0] == 'real': return x.real(v)
        if k[0] == 'idx': return x.bv(v.idx)
        if k[0] == 'tree': return con.fold(s, v)
    def locs(*kinds): return [l for l in sorted(mod, key=str) if mod[l][0] in kinds]
    def counters(): return [l for l in sorted(mod, key=str) if mod[l] == ('bv', 64) or mod[l][0] == 'idx']

    def havoc():
        H = entry.fork()
        for loc in sorted(mod, key=str):
            k = mod[loc]
            if loc[0] in ('text', 'ghost'): continue
            if loc[0] == 'vec':
                b = H.w(loc[1]); srt, gt, nl = SORT[b.ek]
                if b.ek == 'rtexpr':
                    for i, v in b.over: kills(x, H, v)
                W = z3.Const('loopvec!%s!%s' % (loc[1], cid), srt)
                b = H.w(loc[1]); b.over = (); b.env = None
                b.base = (lambda k, W=W, gt=gt: gt(W, k))
                b.null = (lambda k, W=W, nl=nl: nl(W, k)) if nl is not None else False
                if k[1]: b.n = z3.BitVec('looplen!%s!%s' % (loc[1], cid), 64)
                consts[loc] = W
                continue
            b = H.blocks[loc[1]]; c = b.cells.get(loc[2])
            nm = 'loop!%s!%s!%s' % (loc[1], loc[2], cid)
            if k[0] == 'dead':
                bb = H.w(loc[1]); bb.cells.pop(loc[2], None); continue
            if k[0] == 'opaque': H.w(loc[1]).cells[loc[2]] = (c[0] if c else 8, Opaque('loop')); continue
            if k[0] == 'bv': v = z3.BitVec(nm, k[1])
            elif k[0] == 'bool': v = BoolInt(z3.Bool(nm))
            elif k[0] == 'real': v = z3.Real(nm)
            elif k[0] == 'idx': v = Ptr(k[1], 0, z3.BitVec(nm, 64))
            elif k[0] == 'tree':
                kills(x, H, c[1]); tm = z3.Const(nm, Expr if k[1] == 'E' else Op)
                v = con.fresh_tree(H, tm, k[1])
            elif k[0] == 'alias': continue
            H.w(loc[1]).cells[loc[2]] = (c[0], v)
        for loc in locs('alias'):
            c = H.blocks[loc[1]].cells.get(loc[2]); t = H.blocks[mod[loc][1][1]].cells.get(mod[loc][1][2])
            H.w(loc[1]).cells[loc[2]] = (c[0], t[1])
        for loc, k in mod.items():
            if loc[0] != 'text': continue
            tab = dict(H.ghost.get(loc[1], {}))
            if k[0] == 'deadtext': tab.pop(loc[2], None)
            else: tab[loc[2]] = entry.ghost[loc[1]][loc[2]] + (('rep', reps.setdefault(loc, Rep(cid))),)
            H.ghost[loc[1]] = tab
        if 'trace' in H.ghost and ('ghost', 'trace') in mod: H.ghost['trace'] = z3.Const('looptrace!%s' % cid, L.TrS)
        return H

    def formula(c, s, k=None):
        try: return c.fn(s) if c.kind == 's' else c.fn(s, k)
        except Unsupported: return None
    def holds(c, s):
        q, x.quiet = x.quiet, x.quiet + 1
        try:
            s2 = s.fork(); k = {'s': None, 'k': skk, 'e': ske}[c.kind]
            g = formula(c, s2, k)
            return g is not None and x.valid(s2, g)
        except DeadPathT(): return False
        finally: x.quiet = q
    def assume_all(H):
        snap = H.fork()
        for c in cands:
            if c.kind == 's':
                g = formula(c, H)
                if g is not None: H.pc.append(g)
            else:
                for nm, first in c.trig:
                    fr = first(H) if callable(first) else first
                    H.forall.append((nm, fr, lambda k, c=c, snap=snap: formula(c, snap, k)))

    def gen_entry():
        """candidates built from the set of modified locations alone"""
        out = []
        bounds = {}
        for b in entry.blocks.values():
            if b.freed: continue
            if b.kind == 'vec' and ('vec', b.id) not in mod and not isinstance(b.n, int): bounds[str(b.n)] = b.n
            elif b.kind == 'vec' and ('vec', b.id) in mod and not mod[('vec', b.id)][1] and not isinstance(b.n, int): bounds[str(b.n)] = b.n
            if b.kind == 'stack':
                for o, (n, v) in b.cells.items():
                    if n == 8 and ('cell', b.id, o) not in mod and ((z3.is_expr(v) and z3.is_bv(v)) or (isinstance(v, int) and 1 < v < 1 << 32)): bounds[str(v)] = v
                    if n == 8 and isinstance(v, Ptr) and v.idx is not None and not isinstance(v.idx, int) and ('cell', b.id, o) not in mod: bounds[str(v.idx)] = v.idx
        cs_ = counters()
        for c in cs_:
            v0 = value(entry, c)
            out.append(Cand('%s >= start' % (c,), 's', lambda s, c=c, v0=v0: z3.ULE(v0, value(s, c))))
            out.append(Cand('%s <= start' % (c,), 's', lambda s, c=c, v0=v0: z3.ULE(value(s, c), v0)))
            for nm, t in bounds.items():
                tt = x.bv(t)
                if z3.is_bv(tt) and tt.size() == 64:
                    out.append(Cand('%s <= %s' % (c, nm), 's', lambda s, c=c, tt=tt: z3.ULE(value(s, c), tt)))
            for d in cs_:
                if str(d) <= str(c): continue
                w0 = value(entry, d)
                out.append(Cand('%s in step with %s' % (c, d), 's', lambda s, c=c, d=d, v0=v0, w0=w0: value(s, c) - v0 == value(s, d) - w0))
                out.append(Cand('%s opposite to %s' % (c, d), 's', lambda s, c=c, d=d, v0=v0, w0=w0: value(s, c) - v0 == w0 - value(s, d)))
        for l in [l for l in mod if mod[l][0] == 'bv' and mod[l][1] != 64]:
            v0 = value(entry, l); w = mod[l][1]
            out.append(Cand('%s >= start' % (l,), 's', lambda s, l=l, v0=v0: v0 <= value(s, l)))
        for w in locs('V'):
            b0 = entry.blocks[w[1]]; n0 = x.bv(b0.n); srt, gt, nl = SORT[b0.ek]
            trig = [(gt.name(), lambda s, w=w: consts[w])] + ([(nl.name(), lambda s, w=w: consts[w])] if nl is not None else [])
            snap0 = entry.fork()
            def unch(s, k, w=w, b0=b0, snap0=snap0, n0=n0):
                b = s.blocks[w[1]]
                nu, nu0 = M.vec_null(s, b, k), M.vec_null(snap0, b0, k)
                try: e0 = M.vec_elem(snap0.fork(), b0, k)
                except Unsupported: return z3.And(nu == nu0) 
                return z3.And(nu == nu0, z3.Or(nu, M.vec_elem(s.fork(), b, k) == e0))
            for c in cs_:
                v0 = value(entry, c)
                if mod[w][1]:
                    out.append(Cand('length in step', 's', lambda s, w=w, c=c, v0=v0, n0=n0: x.bv(s.blocks[w[1]].n) == n0 + (value(s, c) - v0)))
                else:
                    out.append(Cand('components not reached yet are unchanged', 'k', lambda s, k, w=w, c=c, v0=v0, n0=n0, unch=unch:
                                    z3.Implies(z3.And(z3.ULT(k, n0), z3.Or(z3.ULE(value(s, c), k), z3.ULT(k, v0))), unch(s, k)), trig))
                    if nl is not None:
                        out.append(Cand('components passed are set', 'k', lambda s, k, w=w, c=c, v0=v0, n0=n0:
                                    z3.Implies(z3.And(z3.ULT(k, value(s, c)), z3.ULE(v0, k), z3.ULT(k, n0)), z3.Not(M.vec_null(s, s.blocks[w[1]], k))), trig))
            if mod[w][1]:
                out.append(Cand('length does not shrink', 's', lambda s, w=w, n0=n0: z3.ULE(n0, x.bv(s.blocks[w[1]].n))))
                out.append(Cand('present components are unchanged', 'k', lambda s, k, n0=n0, unch=unch: z3.Implies(z3.ULT(k, n0), unch(s, k)), trig))
                if nl is not None:
                    out.append(Cand('no null component', 'k', lambda s, k, w=w: z3.Implies(z3.ULT(k, x.bv(s.blocks[w[1]].n)), z3.Not(M.vec_null(s, s.blocks[w[1]], k))), trig))
            elif nl is not None:
                out.append(Cand('no null component', 'k', lambda s, k, w=w, n0=n0: z3.Implies(z3.ULT(k, n0), z3.Not(M.vec_null(s, s.blocks[w[1]], k))), trig))
        for l in locs('bool'):
            v0 = value(entry, l)
            out.append(Cand('flag keeps its value', 's', lambda s, l=l, v0=v0: value(s, l) == v0))
            for c in cs_:
                for v in (True, False):
                    out.append(Cand('flag is %s exactly before the first iteration of %s' % (v, c), 's', lambda s, l=l, c=c, v=v, w0=value(entry, c): value(s, l) == ((value(s, c) == w0) if v else (value(s, c) != w0))))
            out.append(Cand('flag set only if set at the start', 's', lambda s, l=l, v0=v0: z3.Implies(value(s, l), v0)))
            out.append(Cand('flag cleared only if cleared at the start', 's', lambda s, l=l, v0=v0: z3.Implies(v0, value(s, l))))
        for l in [l for l in locs('tree') if mod[l][1] == 'E']:
            t0 = value(entry.fork(), l); R = lambda s, l=l: value(s, l)
            trig = [(n, R) for n in ('ev', 'evok', 'wd')]
            out.append(Cand('value is kept', 'e', lambda s, e, t0=t0, R=R: z3.Implies(L.wd(t0, e), L.ev(R(s), e) == L.ev(t0, e)), trig, det=l))
            out.append(Cand('definedness is kept', 'e', lambda s, e, t0=t0, R=R: z3.Implies(L.wd(t0, e), L.wd(R(s), e)), trig))
            out.append(Cand('evaluability is kept', 'e', lambda s, e, t0=t0, R=R: z3.Implies(L.evok(t0, e), L.evok(R(s), e)), trig))
            out.append(Cand('fixed point is kept', 's', lambda s, t0=t0, R=R: L.simpfix(R(s)) == L.simpfix(t0)))
            out.append(Cand('no growth', 's', lambda s, t0=t0, R=R: L.meas(R(s)) <= L.meas(t0)))
            out.append(Cand('changed only if it can be simplified', 's', lambda s, t0=t0, R=R: z3.Or(R(s) == t0, L.cs(t0))))
            out.append(Cand('constness is kept', 's', lambda s, t0=t0, R=R: z3.Implies(L.isconst(t0), L.isconst(R(s)))))
        for tpl in x.hints.get('loops', ()): out += tpl(x, entry, mod, value, Cand) or []
        return out

    def terms_in(f, pred, acc=None):
        acc = [] if acc is None else acc; seen = set(); w = [f]
        while w:
            t = w.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if pred(t): acc.append(t)
            w.extend(t.children())
        return acc
    stable_names = set()
    def usable(t, H, extra):
        """no constants made during the iteration"""
        for a in terms_in(t, lambda u: z3.is_app(u) and u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            n = a.decl().name()
            if '!' in n and n not in stable_names and n not in extra: return False
        return True
    def collect_names(s):
        for p in s.pc:
            for a in terms_in(p, lambda u: z3.is_app(u) and u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED): stable_names.add(a.decl().name())
        for b in s.blocks.values():
            vs = [v for n, v in b.cells.values()] + [b.term, b.n]
            for v in vs:
                if isinstance(v, BoolInt): v = v.b
                if z3.is_expr(v):
                    for a in terms_in(v, lambda u: z3.is_app(u) and u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED): stable_names.add(a.decl().name())
            if b.kind == 'vec' and b.base is not None and not b.freed:
                try:
                    for a in terms_in(b.base(skk), lambda u: z3.is_app(u) and u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED): stable_names.add(a.decl().name())
                except Exception: pass

    def indexed(g, cv):
        """containers read at counter + constant in g, by that constant"""
        by = {}
        for u in terms_in(g, lambda u: z3.is_app(u) and u.decl().name() in ('vget', 'pget', 'envget')):
            off = z3.simplify(u.arg(1) - cv)
            if z3.is_bv_value(off): by.setdefault(off.as_long(), []).append((u.decl().name(), u.arg(0)))
        return [(z3.BitVecVal(o, 64), tr) for o, tr in by.items()]

    def gen_back(H, s):
        """candidates read off one arbitrary iteration"""
        out = []
        hv = {l: value(H, l) for l in counters()}
        step = {l: z3.simplify(value(s, l) - cv) for l, cv in hv.items()}
        def down(c): return z3.is_bv_value(step[c]) and step[c].as_signed_long() < 0
        def passed(c, off, dn):
            # the indices handled before the current iteration: counter + off over the iterations done
            v0 = value(entry, c)
            if dn: return lambda s, k: z3.And(z3.ULT(value(s, c), k - off), z3.ULE(k - off, v0))
            return lambda s, k: z3.And(z3.ULE(v0, k - off), z3.ULT(k - off, value(s, c)))
        def at(s, c, off):
            off = z3.simplify(off); v = value(s, c)
            return v if off.as_long() == 0 else z3.simplify(v + off)
        def unread(X, w):
            # a component of the modified container read before it is written still has its value from the start
            b0 = entry.blocks[w[1]]; gt = SORT[b0.ek][1]; snap = entry.fork()
            for u in terms_in(X, lambda u: z3.is_app(u) and u.decl().name() == gt.name() and u.arg(0).eq(consts[w])):
                try: X = z3.substitute(X, (u, M.vec_elem(snap, b0, u.arg(1))))
                except Unsupported: pass
            return X
        live = {c.name for c in cands}
        def onto(X, c):
            # other counters that advance together with c, in terms of c
            for d, dv_ in hv.items():
                a, b = sorted((c, d), key=str)
                if d != c and '%s in step with %s' % (a, b) in live: X = z3.substitute(X, (dv_, hv[c] - value(entry, c) + value(entry, d)))
                elif d != c and '%s opposite to %s' % (a, b) in live: X = z3.substitute(X, (dv_, value(entry, c) + value(entry, d) - hv[c]))
            return z3.simplify(X) if len(hv) > 1 else X
        modnames = {a.decl().name() for l in mod if l[0] == 'cell' and mod[l][0] in ('bv', 'bool', 'real', 'idx', 'tree')
                    for a in terms_in(value(H.fork(), l), lambda u: z3.is_app(u) and u.num_args() == 0)}
        modnames |= {W.decl().name() for W in consts.values()}
        for w in locs('V'):
            bH, bs, b0 = H.blocks[w[1]], s.blocks[w[1]], entry.blocks[w[1]]
            srt, gt, nl = SORT[bs.ek]; n0 = x.bv(b0.n)
            trig = [(gt.name(), lambda s, w=w: consts[w])]
            for i, v in bs.over:
                if isinstance(v, Ptr) and v.b is None: continue
                try: X = X0 = x.real(v) if bs.ek == 'double' else con.fold(s.fork(), v)
                except Unsupported: continue
                it = x.bv(i)
                for c, cv in hv.items():
                    v0 = value(entry, c)
                    if x.hints.get('dbg'): print('STORE', w, i, str(X)[:300], usable(X, H, {cv.decl().name()}))
                    if not mod[w][1]:
                        off = z3.simplify(it - cv)
                        if not z3.is_bv_value(off): continue
                        X = onto(unread(X0, w), c); pa = passed(c, off, down(c))
                        if not usable(X, H, {cv.decl().name()}) or any(n in modnames - {cv.decl().name()} for n in
                                [a.decl().name() for a in terms_in(X, lambda u: z3.is_app(u) and u.num_args() == 0)]): continue
                        out.append(Cand('component k = %s' % str(X)[:60], 'k', lambda s, k, w=w, X=X, cv=cv, n0=n0, off=off, pa=pa: z3.Implies(
                            z3.And(pa(s, k), z3.ULT(k, n0)), M.vec_elem(s.fork(), s.blocks[w[1]], k) == z3.substitute(X, (cv, k - off))), trig))
                        def nset(s, k, w=w, pa=pa, n0=n0):
                            return z3.Implies(z3.And(pa(s, k), z3.ULT(k, n0)), z3.Not(M.vec_null(s, s.blocks[w[1]], k)))
                        def nunch(s, k, w=w, pa=pa, n0=n0, b0=b0, snap0=entry.fork()):
                            b = s.blocks[w[1]]; nu, nu0 = M.vec_null(s, b, k), M.vec_null(snap0, b0, k)
                            try: e0 = M.vec_elem(snap0.fork(), b0, k)
                            except Unsupported: return z3.Implies(z3.And(z3.ULT(k, n0), z3.Not(pa(s, k))), nu == nu0)
                            return z3.Implies(z3.And(z3.ULT(k, n0), z3.Not(pa(s, k))), z3.And(nu == nu0, z3.Or(nu, M.vec_elem(s.fork(), b, k) == e0)))
                        if down(c) or off.as_long():
                            if nl is not None: out.append(Cand('components passed are set (offset %s)' % off, 'k', nset, trig))
                            out.append(Cand('components not passed are unchanged (offset %s)' % off, 'k', nunch, trig))
                    else:
                        nH = x.bv(bH.n)
                        if not it.eq(nH): continue
                        X = onto(X0, c)
                        if not usable(X, H, {cv.decl().name(), nH.decl().name()}): continue
                        out.append(Cand('appended component = %s' % str(X)[:60], 'k', lambda s, k, w=w, v0=v0, X=X, cv=cv, nH=nH, n0=n0: z3.Implies(
                            z3.And(z3.ULE(n0, k), z3.ULT(k, x.bv(s.blocks[w[1]].n))), M.vec_elem(s.fork(), s.blocks[w[1]], k) == z3.substitute(X, (cv, v0 + (k - n0)), (nH, k))), trig))
        for g0 in s.pc[len(H.pc):]:
            # bounds a counter is compared with
            for u in terms_in(g0, lambda u: z3.is_app(u) and u.num_args() == 2 and u.decl().name() in ('bvule', 'bvult', 'bvuge', 'bvugt', '=', 'distinct') and z3.is_bv(u.arg(0)) and u.arg(0).size() == 64):
                for a, b in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                    for c, cv in hv.items():
                        if a.eq(cv) and usable(b, H, ()) and not any(t.decl().name() in modnames for t in terms_in(b, lambda u: z3.is_app(u) and u.num_args() == 0)):
                            guards.append(b); out.append(Cand('%s <= %s' % (c, str(b)[:80]), 's', lambda s, c=c, b=b: z3.ULE(value(s, c), b)))
            for c, cv in hv.items():
                nm = cv.decl().name(); g = onto(g0, c)
                names = [a.decl().name() for a in terms_in(g, lambda u: z3.is_app(u) and u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED)]
                if nm not in names or not usable(g, H, {nm}) or any(n in modnames - {nm} for n in names): continue
                for off, tr in indexed(g, cv):
                    pa = passed(c, off, down(c))
                    out.append(Cand('for all passed k: %s' % str(g)[:80], 'k', lambda s, k, g=g, cv=cv, off=off, pa=pa: z3.Implies(
                        pa(s, k), z3.substitute(g, (cv, k - off))), tr))
        # flags that accumulate a condition over the components
        for l in locs('bool'):
            v0f = value(entry, l); fl = value(H.fork(), l)
            b = z3.simplify(z3.substitute(value(s, l), (fl, z3.BoolVal(True))))
            for sg in (True, False):
                bb0 = b if sg else z3.simplify(z3.Not(z3.substitute(value(s, l), (fl, z3.BoolVal(False)))))
                for c, cv in hv.items():
                    nm = cv.decl().name(); bb = onto(bb0, c)
                    names = [a.decl().name() for a in terms_in(bb, lambda u: z3.is_app(u) and u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED)]
                    if nm not in names or not usable(bb, H, {nm}) or any(n in modnames - {nm} for n in names): continue
                    sig = lambda s, l=l, sg=sg: value(s, l) if sg else z3.Not(value(s, l))
                    for off, tr in indexed(bb, cv):
                        pa = passed(c, off, down(c))
                        out.append(Cand('flag %s: for all passed k %s' % (sg, str(bb)[:70]), 'k', lambda s, k, bb=bb, cv=cv, sig=sig, off=off, pa=pa: z3.Implies(
                            z3.And(sig(s), pa(s, k)), z3.substitute(bb, (cv, k - off))), tr))
                    for q_ in terms_in(bb, lambda u: z3.is_eq(u) and all(z3.is_app(a) and a.decl().name() == 'vget' for a in u.children())):
                        va, vb = q_.arg(0).arg(0), q_.arg(1).arg(0)
                        out.append(Cand('flag %s otherwise the vectors differ' % sg, 's', lambda s, sig=sig, va=va, vb=vb, v0f=v0f, sg=sg: z3.Implies(z3.Not(sig(s)), z3.Or(z3.Not(v0f) if sg else v0f, va != vb))))
        # flags and tallies that change on some paths only: while unchanged, every component passed satisfied the conditions of this path
        sigs = [(l, 'set', lambda s, l=l: value(s, l)) for l in locs('bool')] + [(l, 'clear', lambda s, l=l: z3.Not(value(s, l))) for l in locs('bool')]
        sigs += [(l, 'untouched', lambda s, l=l, v0=value(entry, l): value(s, l) == v0) for l in counters() if not z3.is_bv_value(step[l]) or step[l].as_long() in (0, 1)]
        for l, what, sig in sigs:
            a1, a0 = value(s, l), value(H.fork(), l)
            keeps = a1.eq(a0)
            for g0 in s.pc[len(H.pc):]:
                for c, cv in hv.items():
                    if c == l: continue
                    nm = cv.decl().name(); g = onto(g0, c)
                    names = [a.decl().name() for a in terms_in(g, lambda u: z3.is_app(u) and u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED)]
                    if nm not in names or not usable(g, H, {nm}) or any(n in modnames - {nm} for n in names): continue
                    if l in hv: out.append(Cand('%s not ahead of %s' % (l, c), 's', lambda s, l=l, c=c, v0=value(entry, l), w0=value(entry, c): z3.ULE(value(s, l) - v0, value(s, c) - w0)))
                    if keeps:
                        for off, tr in indexed(g, cv):
                            pa = passed(c, off, down(c))
                            out.append(Cand('while %s is %s, for all passed k: %s' % (l, what, str(g)[:80]), 'k', lambda s, k, g=g, cv=cv, off=off, pa=pa, sig=sig: z3.Implies(
                                z3.And(sig(s), pa(s, k)), z3.substitute(g, (cv, k - off))), tr))
                    else:
                        for q_ in terms_in(g, lambda u: z3.is_eq(u) and all(z3.is_app(a) and a.decl().name() == 'vget' for a in u.children())):
                            va, vb = q_.arg(0).arg(0), q_.arg(1).arg(0); g00 = sig(entry)
                            out.append(Cand('once %s is not %s the vectors differ' % (l, what), 's', lambda s, sig=sig, va=va, vb=vb, g00=g00: z3.Implies(z3.Not(sig(s)), z3.Or(z3.Not(g00), va != vb))))
        # sums of products of components
        for l in [l for l in locs('tree') if mod[l][1] == 'E']:
            try: t1 = value(s.fork(), l)
            except Unsupported: continue
            for p in terms_in(t1, lambda u: z3.is_app(u) and u.sort() == Expr and u.decl().name() == 'Bin'):
                if not (p.arg(0).eq(Op.MULT) and all(a.decl().name() == 'vget' for a in p.children()[1:]) and p.arg(1).arg(1).eq(p.arg(2).arg(1))): continue
                for c, cv in hv.items():
                    off = z3.simplify(p.arg(1).arg(1) - cv)
                    if not z3.is_bv_value(off): continue
                    R = lambda s, l=l: value(s, l); trig = [(n, R) for n in ('ev', 'wd')]; dn = down(c)
                    for a, b in ((p.arg(1).arg(0), p.arg(2).arg(0)),):
                        if dn:
                            D = lambda s, e, a=a, b=b, c=c, off=off: L.dots(e, a, b, L.vlen(a)) - L.dots(e, a, b, at(s, c, off + 1))
                            Z = lambda s, a=a, b=b, c=c, off=off: L.psum(a, L.vlen(a)) + L.psum(b, L.vlen(b)) - L.psum(a, at(s, c, off + 1)) - L.psum(b, at(s, c, off + 1))
                        else:
                            D = lambda s, e, a=a, b=b, c=c, off=off: L.dots(e, a, b, at(s, c, off))
                            Z = lambda s, a=a, b=b, c=c, off=off: L.psum(a, at(s, c, off)) + L.psum(b, at(s, c, off))
                        nm = '%s %s' % (a, b)
                        out.append(Cand('partial dot product ' + nm, 'e', lambda s, e, a=a, b=b, D=D, R=R: z3.Implies(L.vwdot(e, a, b), L.ev(R(s), e) == D(s, e)), trig, det=l))
                        out.append(Cand('partial dot product is defined ' + nm, 'e', lambda s, e, a=a, b=b, R=R: z3.Implies(L.vwdot(e, a, b), L.wd(R(s), e)), trig))
                        out.append(Cand('partial dot product is small ' + nm, 's', lambda s, Z=Z, R=R: L.meas(R(s)) + 1 <= Z(s)))
        return out

    def appended(u, v):
        """v without its beginning u (None: v does not begin with u)"""
        if len(v) < len(u): return None
        for i, (a, b) in enumerate(zip(u, v)):
            if samep(a, b): continue
            if i == len(u) - 1 and a[0] == b[0] == 'lit' and b[1].startswith(a[1]): return ((('lit', b[1][len(a[1]):]),) if b[1] != a[1] else ()) + v[len(u):]
            return None
        return v[len(u):]
    q = x.quiet; guards = []
    collect_names(entry)
    H = None
    for rnd in range(40):
        H = havoc(); collect_names(H); assume_all(H)
        Hs = H.fork()
        x.quiet = q + 1
        try: outs = x.run(f, dict(regs), H.fork(), h, prev, stop=(h, body))
        finally: x.quiet = q
        backs = [o.st for o in outs if o.kind == 'back']
        backs = [s for s in backs if x.feasible(s)]
        new = {}
        for s in backs:
            for loc, n in changed(x, Hs, s, pre).items():
                if loc in mod or loc[0] == 'freed': continue
                if loc[0] == 'vec':
                    lenmod = not same(entry.blocks[loc[1]].n, s.blocks[loc[1]].n)
                    new[loc] = ('V', lenmod or new.get(loc, ('V', False))[1])
                else:
                    u = entry.blocks[loc[1]].cells.get(loc[2]); v = s.blocks[loc[1]].cells.get(loc[2])
                    k = kind_of(x, entry, s, n, u[1] if u else None, v[1] if v else None)
                    if loc in new and new[loc] != k: k = ('dead',)
                    new[loc] = k
            # several places that hold the same object before and after the iteration
            def held(st_, l):
                c_ = st_.blocks[l[1]].cells.get(l[2]); return c_[1] if c_ else None
            own = {}
            for loc in sorted([l for l in list(mod) + list(new) if l[0] == 'cell'], key=str):
                k = new.get(loc) or mod.get(loc)
                if k[0] not in ('tree', 'alias') or not (islive(entry, held(entry, loc)) and islive(s, held(s, loc))): continue
                w = (held(entry, loc).b, held(s, loc).b)
                tgt = k[1] if k[0] == 'alias' and k[1] in own.values() else own.get(w)
                if tgt is not None and same(held(entry, loc), held(entry, tgt)) and same(held(s, loc), held(s, tgt)):
                    if mod.get(loc) != ('alias', tgt): new[loc] = ('alias', tgt)
                    elif loc in new: del new[loc]
                elif k[0] == 'alias': new[loc] = ('dead',)
                else: own[w] = loc
            for tab, k, u, v in texts(Hs, s):
                loc = ('text', tab, k); kd = ('text',) if tab != 'map' and u is not None and v is not None and appended(u, v) is not None else ('deadtext',)
                if mod.get(loc) == ('deadtext',) or new.get(loc) == ('deadtext',): continue
                if mod.get(loc) != kd: new[loc] = kd
            if 'trace' in s.ghost and not s.ghost['trace'].eq(Hs.ghost['trace']) and ('ghost', 'trace') not in mod: new[('ghost', 'trace')] = ('ghost',)
            for loc in list(mod):
                if loc[0] == 'vec' and not mod[loc][1] and not same(Hs.blocks[loc[1]].n, s.blocks[loc[1]].n): new[loc] = ('V', True)
                if loc[0] == 'cell' and mod[loc][0] in ('tree', 'idx', 'bv', 'real', 'bool'):
                    v = s.blocks[loc[1]].cells.get(loc[2]); u = entry.blocks[loc[1]].cells.get(loc[2])
                    k = kind_of(x, entry, s, (u or v)[0], u[1] if u else None, v[1] if v else None)
                    if k != mod[loc]: new[loc] = ('dead',)
        if any(mod.get(l) != k for l, k in new.items()):
            mod.update(new)
            # a container block that is absorbed drops its parts
            cands = [c for c in gen_entry() if holds(c, entry)]; generated = {c.name for c in cands}
            continue
        if x.hints.get('dbg'): print('round', rnd, {k: v for k, v in mod.items()}, [c.name for c in cands], len(backs))
        ch = False
        for s in backs:
            bad = [c for c in cands if not holds(c, s)]
            if bad:
                ch = True; cands = [c for c in cands if c not in bad]
        for s in backs:
            for c in gen_back(Hs, s):
                if (c.name) in generated: continue
                generated.add(c.name)
                if holds(c, entry): cands.append(c); ch = True
        if not ch: break
    else: raise Unsupported('loop invariant does not converge')
    # the recorded pass
    H0 = H.fork()
    outs = x.run(f, dict(regs), H, h, prev, stop=(h, body))
    backs = [o for o in outs if o.kind == 'back']; ret = [o for o in outs if o.kind != 'back']
    P = x.safety_props; where = 'loop in ' + x.where()
    for loc in [l for l in mod if l[0] == 'text' and mod[l] == ('text',)]:
        R = reps[loc]; hv = {l: value(H0, l) for l in counters()}
        for c, cv in sorted(hv.items(), key=str):
            if not all(z3.is_bv_value(d) and d.as_long() == 1 for d in [z3.simplify(value(o.st, c) - cv) for o in backs]): continue
            only = lambda t: usable(t, H0, {cv.decl().name()}) and not any(a.decl().name() in {v.decl().name() for l, v in hv.items() if l != c} for a in terms_in(t, lambda u: z3.is_app(u) and u.num_args() == 0)) \
                and not any(a.decl().name() in mnames - {cv.decl().name()} for a in terms_in(t, lambda u: z3.is_app(u) and u.num_args() == 0))
            mnames = {a.decl().name() for l in mod if l[0] == 'cell' and mod[l][0] in ('bv', 'bool', 'real', 'idx', 'tree') for a in terms_in(value(H0.fork(), l), lambda u: z3.is_app(u) and u.num_args() == 0)} | {W.decl().name() for W in consts.values()}
            items = []; lost = False
            for o in backs:
                d = appended(H0.ghost[loc[1]][loc[2]], o.st.ghost[loc[1]][loc[2]])
                if d is None or any(p[0] == 'rep' or (z3.is_expr(a) and not only(a)) for p in d for a in p[1:]): items = None; break
                conds = [g for g in o.st.pc[len(Hs.pc):] if only(g)]; v0 = x.bv(value(entry, c))
                if any(not only(g) and any(t.decl().name() in mnames for t in terms_in(g, lambda u: z3.is_app(u) and u.num_args() == 0)) for g in o.st.pc[len(Hs.pc):]): lost = True
                for t in [v0] + [u - 1 for u in guards]:
                    for g in (cv == t, cv != t):
                        if only(g) and x.valid(o.st, g): conds.append(g)
                items.append((conds, d))
            if items and lost:
                for o in outs: o.st.ghost['loose'] = True
            if items: R.items = items; R.c = cv; R.start = value(entry, c); break
    # an expression built up by the loop about which nothing was found out: what follows cannot be refuted
    if any(not any(c.det == l for c in cands) for l in mod if mod[l] == ('tree', 'E')):
        for o in outs: o.st.ghost['loose'] = True
    x.loopinfo.setdefault(where, []).append([c.name for c in cands])
    for o in backs:
        s = o.st
        for c in cands:
            g = formula(c, s.fork(), {'s': None, 'k': skk, 'e': ske}[c.kind])
            x.oblige(s, P, 'loop invariant preserved: %s' % c.name, g, where)
        for loc in changed(x, Hs, s, pre):
            if loc[0] == 'freed': x.oblige(s, P, 'an object outside the loop is not destroyed by every iteration', False, where)
        reach = set()
        def go(p):
            if isinstance(p, Ptr) and isinstance(p.b, int) and p.b not in reach and p.b in s.blocks:
                reach.add(p.b); blk(s.blocks[p.b])
        def blk(b):
            for n, v in b.cells.values():
                if isinstance(v, Ptr): go(v)
                elif isinstance(v, VecVal) and v.b not in reach: reach.add(v.b); blk(s.blocks[v.b])
            for i, v in b.over:
                if isinstance(v, Ptr): go(v)
        for bid in pre:
            if not s.blocks[bid].freed: blk(s.blocks[bid])
        for bid, b in s.blocks.items():
            if bid not in Hs.blocks and b.owned and not b.freed and bid not in reach and b.name != 'exception':
                x.oblige(s, P, 'no leak per loop iteration (%s)' % b.name, False, where); break
        if x.measure_loops: variant(x, Hs, s, value, mod, counters, P, where, pre, guards)
    return ret

def DeadPathT():
    from contracts import DeadPath
    return DeadPath

def variant(x, H, s, value, mod, counters, P, where, pre, more=()):
    """some measure of the modified locations decreases"""
    goals = []
    bnds = [x.bv(b.n) for b in H.blocks.values() if b.kind == 'vec' and not b.freed]
    for bid in pre:
        b = H.blocks[bid]
        if b.kind == 'stack' and not b.freed:
            bnds += [x.bv(v) for n, v in b.cells.values() if n == 8 and ((z3.is_expr(v) and z3.is_bv(v)) or isinstance(v, int))]
            bnds += [x.bv(v.idx) for n, v in b.cells.values() if isinstance(v, Ptr) and v.idx is not None]
    u = {}
    for b in bnds + list(more): u[str(b)] = b
    for c in counters():
        a, b = value(H, c), value(s, c)
        for t in u.values():
            if t.size() == 64: goals.append(z3.And(z3.ULT(a, b), z3.ULE(b, t)))
        goals.append(z3.ULT(b, a))
    for l in mod:
        if mod[l][0] == 'bv' and mod[l][1] == 32: goals.append(value(H, l) < value(s, l))
        if mod[l] == ('tree', 'E'): goals.append(L.meas(value(s.fork(), l)) < L.meas(value(H.fork(), l)))
    for g in goals:
        if x.valid(s, g): x.oblige(s, tuple(P) + ('P07',), 'loop terminates (variant)', True, where); return
    x.oblige(s, tuple(P) + ('P07',), 'loop terminates (variant)', goals[0] if goals else False, where)
