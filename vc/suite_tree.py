"""Stream text (deep_str, operator<<): the text is fully bracketed and names every
node, so reading it gives back the tree.  Same text model as the LaTeX suite; the
text of a part is the part's own deep_str by contract."""
import z3
import logic as L
from logic import Expr, Op
from exec import *
from fractions import Fraction
from suite_wrap import W, HEAD, run_wrapper
import units as U, text
from text import Unreadable
from build import TU
P = ('P28',)
HINTS = {'text': 'tree'}
NM = {'id': 'ID', 'exp': 'EXP', 'sin': 'SIN', 'cos': 'COS', 'tan': 'TAN', 'fabs': 'FABS', 'sqrt': 'SQRT', 'log': 'LOG', 'log10': 'LOG10', 'grad': 'GRAD', 'div': 'DIVG'}
BO = {'+': 'PLUS', '-': 'MINUS', '*': 'MULT', '/': 'DIVI'}
def lex(ps):
    import re
    out = []
    for i, p in enumerate(ps):
        if p[0] != 'lit': out.append(p); continue
        for m in re.finditer(r'\s+|[A-Za-z_]\w*|\d+(?:\.\d+)?|.', p[1]):
            w = m.group(0)
            if w.isspace(): continue
            if (w[-1].isalnum() or w[-1] == '_') and m.end() == len(p[1]) and i + 1 < len(ps) and not (w in ('expr', 'unary') and ps[i + 1][0] == 'ds'): raise Unreadable('%s runs into the following text' % w)
            out.append(('num', w) if w[0].isdigit() else ('w', w))
    return out
class Reader(text.Reader):
    """text -> goals: tree(t) appends the conditions under which what is read is the tree t"""
    def __init__(self, ps, tags): self.t = lex(ps); self.i = 0; self.g = []; self.tags = tags
    def word(self, w): self.eat('w', w)
    def number(self):
        t = self.nx()
        if t[0] == 'int': return t[1] if t[1].size() == 64 else z3.SignExt(64 - t[1].size(), t[1])
        if t[0] == 'num' and t[1].isdigit(): return z3.BitVecVal(int(t[1]), 64)
        raise Unreadable('number')
    def tree(self, t):
        p = self.nx(); g = self.g
        if p[0] == 'rep': raise Unsupported('text written by a loop')
        if p == ('w', '['): return self.vector(t)
        if p[0] == 'ds': g.append(t == p[1]); return
        if p == ('w', '('):
            g.append(Expr.is_Bin(t)); self.tree(Expr.blhs(t)); o = self.nx()
            if o[0] != 'w' or o[1] not in BO: raise Unreadable('operator expected')
            g.append(Expr.bop(t) == getattr(Op, BO[o[1]])); self.tree(Expr.brhs(t)); self.word(')'); return
        if p[0] != 'w': raise Unreadable('unexpected %s' % str(p)[:50])
        w = p[1]
        if w in NM or w in ('partial_deriv', 'rt_integral', 'symbolic_integral'):
            g.append(Expr.is_Un(t)); o = Expr.uop(t)
            if w in NM: g.append(o == getattr(Op, NM[w]))
            elif w == 'partial_deriv': self.word('<'); g += [Op.is_PD(o), Op.pd_id(o) == self.number()]; self.word('>')
            elif w == 'symbolic_integral': self.word('['); self.word('symbolic_interval'); self.word('['); g += [Op.is_SINT(o), Op.si_id(o) == self.number()]; self.word(']'); self.word(']')
            else:
                self.word('['); g.append(Op.is_INT(o)); self.interval(Op.in_lo(o), Op.in_hi(o)); self.word(','); self.tree(Expr.Var(Op.in_var(o))); self.word(']')
            self.word('('); self.tree(Expr.uarg(t)); self.word(')'); return
        if w == 'constant':
            self.word('('); v = self.nx(); self.word(')')
            if v[0] == 'dbl': g.append(t == Expr.Const(v[1]))
            elif v[0] == 'int': g.append(t == (Expr.ConstL if v[1].size() == 64 else Expr.ConstI)(v[1]))
            elif v[0] == 'num': g.append(t == Expr.Const(L.rv(Fraction(v[1]))))
            else: raise Unreadable('constant')
            return
        if w == 'variable': self.word('('); g.append(t == Expr.Var(self.number())); self.word(')'); return
        if w == 'function_symbol':
            self.word('<'); k = self.nx()
            if k[0] != 'w' or k[1] not in self.tags: raise Unreadable('family')
            self.word('('); g.append(t == Expr.Fun(self.number(), self.tags[k[1]])); self.word(')'); self.word('>'); return
        raise Unreadable('unexpected %s' % w)
    def comp(self, t): self.wrapped(t) if self.at('w', 'expr') else self.tree(t)
    def vector(self, t):
        """[n](first, ..., last); a stretch written by a loop is read once, for an arbitrary index"""
        g = self.g; V = Expr.vec(t); n = L.vlen(V); g.append(Expr.is_Vec(t)); g.append(self.number() == n); self.word(']'); self.word('(')
        j = z3.BitVecVal(0, 64); segs = []          # (condition, index, separator before, separator after)
        while not self.at('w', ')'):
            p = self.pk()
            if p[0] == 'rep':
                self.nx(); R = p[1]
                if R.items is None: raise Unsupported('text written by a loop')
                k = z3.FreshConst(L.BV64, 'component')
                up = R.upto if getattr(R, 'upto', None) is not None else R.c
                for conds, d in R.items:
                    sub = [(R.c, k)]; dd = tuple((q[0],) + tuple(z3.substitute(a, *sub) if z3.is_expr(a) else a for a in q[1:]) for q in d)
                    h = z3.And([z3.ULE(R.start, k), z3.ULT(k, up)] + [z3.substitute(c, *sub) for c in conds])
                    r = Reader(dd, self.tags); pre = r.at('w', ',')
                    if pre: r.nx()
                    i = j + (k - R.start); r.comp(L.vget(V, i)); post = r.at('w', ',')
                    if post: r.nx()
                    if r.i < len(r.t): raise Unreadable('unexpected %s' % str(r.pk())[:50])
                    g.append(z3.Implies(h, z3.And(r.g + [z3.ULT(i, n)]))); segs.append((h, i, pre, post))
                j = z3.simplify(j + (up - R.start)); g.append(z3.ULE(R.start, up))
            else:
                pre = p == ('w', ',')
                if pre: self.nx()
                if self.pk()[0] == 'rep' and pre: raise Unsupported('text written by a loop')
                self.comp(L.vget(V, j)); post = self.at('w', ',') and self.i + 1 < len(self.t) and self.t[self.i + 1][0] == 'rep'
                if post: self.nx()
                g.append(z3.ULT(j, n)); segs.append((z3.BoolVal(True), j, pre, post)); j = z3.simplify(j + 1)
        self.word(')'); g.append(j == n)
        before = any(s[2] for s in segs)
        if before and any(s[3] for s in segs): raise Unsupported('separators before and after')
        for h, i, pre, post in segs: g.append(z3.Implies(h, (z3.UGT(i, 0) == z3.BoolVal(pre)) if before else (z3.ULT(i + 1, n) == z3.BoolVal(post))))
    def wrapped(self, t):
        """expr(...): the parentheses of a binary expression are its own"""
        self.word('expr')
        if self.at('w', '('):
            k = self.i; n = len(self.g)
            try:                                    # expr((a+b)) / expr(f(a)): a bracketed tree
                self.nx(); self.tree(t); self.word(')'); return
            except Unreadable: self.i = k; del self.g[n:]
            self.tree(t); return
        self.g.append(Expr.is_Bin(t)); self.tree(t)
    def interval(self, lo, hi): self.word('interval'); self.word('('); self.wrapped(lo); self.word(','); self.wrapped(hi); self.word(')')
def tags(x):
    out = {}
    for n in ('unknown', 'test'):
        st = State(); q, x.quiet = x.quiet, 1
        outs = x.call_function(st, 'w__tag_' + n, []); x.quiet = q
        if len(outs) != 1: raise Unsupported('family numbers')
        out[n] = x.bv(outs[0].val)
    return out
def check(x, o, ps, tg, f):
    if o.kind != 'ret': x.oblige(o.st, P, 'every expression has a text', False, str(o.val)); return
    r = Reader(ps, tg)
    try:
        f(r)
        if r.i < len(r.t): raise Unreadable('unexpected %s' % str(r.pk())[:50])
    except Unreadable as e: x.oblige(o.st, P, 'the text is fully bracketed', False, '%s: %s' % (show(ps), e)); return
    x.oblige(o.st, P, 'the text names the tree', z3.And(r.g + [z3.BoolVal(True)]), show(ps)); U.leaks(x, o.st, set())
def show(ps): return ''.join(p[1] if p[0] == 'lit' else '<%s>' % str(p[1])[:60] for p in ps)
def known(x, t, tg): return z3.Implies(Expr.is_Fun(t), z3.Or([Expr.ftag(t) == v for v in tg.values()]))
def deep(x, t, fn):
    con = x.con; st = State(); h = con.ctor[t]; T = U.sym_expr(x, h); x.unit_key = 'str'; tg = tags(x)
    b = x.new_block(st, 'abs', None, 'this'); b.root = 'E'; b.term = T; b.ro = True; con.unfold(st, b.id, t)
    con.measure = (0, L.size(T), 1); x.assume(st, known(x, T, tg))
    if h == 'Un': x.assume(st, L.uok(Expr.uop(T)) if False else z3.Not(L.bok(T.arg(0))))
    if h == 'Bin': x.assume(st, L.bok(T.arg(0)))
    out = x.new_block(st, 'ext', 32, 'string result'); out = Ptr(out.id, 0)
    for o in x.call_function(st, fn, [out, Ptr(b.id, 0)]):
        x.stats['paths'] += 1
        if o.kind == 'ret': x.stats['ret'] = x.stats.get('ret', 0) + 1
        check(x, o, text.text(o.st, out) if o.kind == 'ret' else (), tg, lambda r: r.tree(T))
def wrappers():
    out = [W('tag_' + n, 'unsigned long', '', 'vm::%s_tag<>::tag_id()' % n, lambda c, o: None) for n in ('unknown', 'test')]
    SS = 'std::stringstream ss; ss << %s; return ss.str();'
    def post(f):
        def g(c, o): check(c.x, o, text.text(o.st, c.out) if o.kind == 'ret' else (), c.tg, lambda r: f(c, r))
        return g
    def pre(c):
        c.tg = tags(c.x); ts = c.a['e'].sides if hasattr(c.a['e'], 'sides') else [c.a['e'].term]
        for t in ts: c.x.assume(c.st0, known(c.x, t, c.tg))
        if c.W.uid == 'str_B': c.x.assume(c.st0, L.bok(ts[0].arg(0)))
        if c.W.uid == 'str_U': c.x.assume(c.st0, z3.Not(L.bok(ts[0].arg(0))))
    T = lambda c: c.a['e'].term
    def top(c, r):       # what precedes the bracketed tree is only the kind of the wrapper
        if r.at('w', 'unary'): r.nx(); r.tree(T(c))
        elif r.at('w', 'expr'): r.wrapped(T(c))
        else: r.tree(T(c))
    def unary(c, o):
        # 'unary' is written directly before the operator's name
        if o.kind != 'ret': c.x.oblige(o.st, P, 'every expression has a text', False); return
        ps = text.text(o.st, c.out)
        if ps and ps[0][0] == 'lit' and ps[0][1].startswith('unary') and ps[0][1] != 'unary': ps = (('lit', ps[0][1][5:]),) + ps[1:]
        check(c.x, o, ps, c.tg, lambda r: top(c, r))
    for k in ('E', 'B', 'V', 'F', 'C', 'CL', 'CI', 'X'): out.append(W('str_' + k, 'std::string', k + ':e', SS % 'e', post(top), pre=pre, hints=HINTS))
    out.append(W('str_U', 'std::string', 'U:e', SS % 'e', unary, pre=pre, hints=HINTS))
    def eqn(c, r): r.word('equation'); r.word('('); r.wrapped(c.a['e'].sides[0]); r.word('='); r.wrapped(c.a['e'].sides[1]); r.word(')')
    out.append(W('str_Q', 'std::string', 'Q:e', SS % 'e', post(eqn), pre=pre, hints=HINTS)); out.append(W('str_N', 'std::string', 'N:e', SS % 'e', post(lambda c, r: r.interval(*c.a['e'].sides)), pre=pre, hints=HINTS))
    return out
# compile-time expressions: ('C', v), ('V', id), ('F', family, id), ('B', op, l, r), ('U', op, a)
OPT = {'+': 'op_plus', '-': 'op_minus', '*': 'op_mult', '/': 'op_div'}
def cpp(e):
    if e[0] == 'C': return 'vm::ct_constant<%d>' % e[1]
    if e[0] == 'V': return 'vm::ct_variable<%d>' % e[1]
    if e[0] == 'F': return 'vm::ct_function_symbol<vm::%s_tag<%d> >' % (e[1], e[2])
    if e[0] == 'B': return 'vm::ct_binary_expr<%s, vm::%s<double>, %s >' % (cpp(e[2]), OPT[e[1]], cpp(e[3]))
    return 'vm::ct_unary_expr<%s, vm::op_%s<double> >' % (cpp(e[2]), {'grad': 'gradient', 'div': 'divergence'}.get(e[1], e[1]))
def norep(ps):
    if any(p[0] == 'rep' for p in ps): raise Unsupported('text written by a loop')
    return ps
class CReader(Reader):
    """[left op right], [operand op], kind<value>, family[id]"""
    def num(self):
        neg = self.at('w', '-')
        if neg: self.nx()
        t = self.nx()
        if t[0] == 'num': v = int(t[1])
        elif t[0] == 'int' and (isinstance(t[1], int) or z3.is_bv_value(z3.simplify(t[1]))): v = t[1] if isinstance(t[1], int) else z3.simplify(t[1]).as_signed_long()
        else: raise Unreadable('number')
        return -v if neg else v
    def ct(self):
        p = self.nx()
        if p == ('w', '['):
            a = self.ct(); o = self.nx()
            if o[0] != 'w': raise Unreadable('operator expected')
            if o[1] in BO: b = self.ct(); self.word(']'); return ('B', o[1], a, b)
            if o[1] not in NM: raise Unreadable('operator expected')
            self.word(']'); return ('U', o[1], a)
        if p[0] == 'w' and p[1] in ('ct_constant', 'ct_variable'):
            self.word('<'); v = self.num(); self.word('>'); return ('C' if p[1] == 'ct_constant' else 'V', v)
        if p[0] == 'w' and p[1] in ('unknown', 'test'): self.word('['); v = self.num(); self.word(']'); return ('F', p[1], v)
        raise Unreadable('unexpected %s' % str(p)[:50])
CL_ = [('C', 0), ('C', -3), ('C', 12345678901), ('V', 0), ('V', 7), ('F', 'unknown', 0), ('F', 'unknown', 2), ('F', 'test', 0), ('F', 'test', 3)]
# (compile-time unary expressions cannot be instantiated as objects on the pinned tree)
CN = CL_ + [('B', o, ('V', 0), ('C', 3)) for o in BO] + [
    ('B', '-', ('V', 0), ('B', '-', ('V', 1), ('C', -2))), ('B', '-', ('B', '-', ('V', 0), ('V', 1)), ('C', 2)), ('B', '*', ('B', '+', ('C', 2), ('V', 3)), ('B', '/', ('V', 0), ('V', 1))),
    ('B', '/', ('C', -7), ('B', '*', ('V', 2), ('V', 0))), ('B', '+', ('F', 'unknown', 1), ('F', 'test', 1)), ('B', '+', ('B', '*', ('V', 1), ('V', 2)), ('B', '*', ('V', 3), ('V', 4)))]
def ct_wrappers():
    out = []; SS = 'std::stringstream ss; ss << %s; return ss.str();'
    def post(f):
        def g(c, o):
            if o.kind != 'ret': c.x.oblige(o.st, P, 'every expression has a text', False, str(o.val)); return
            ps = text.text(o.st, c.out); r = CReader(norep(ps), {})
            try: got, want = f(r); ok = got == want; end = r.i >= len(r.t)
            except Unreadable as e: c.x.oblige(o.st, P, 'the text is fully bracketed', False, '%s: %s' % (show(ps), e)); return
            c.x.oblige(o.st, P, 'the text names the compile-time expression', ok and end, show(ps)); U.leaks(c.x, o.st, set())
        return g
    for i, e in enumerate(CN): out.append(W('str_ct%d' % i, 'std::string', '', SS % ('(%s())' % cpp(e)), post(lambda r, e=e: (r.ct(), e)), hints=HINTS))
    def two(r, w, sep): r.word(w); r.word('('); a = r.ct(); r.word(sep); b = r.ct(); r.word(')'); return a, b
    for i, (a, b) in enumerate([(CN[0], CN[4]), (CN[9], CN[5]), (CN[14], CN[-1])]):
        for w, sep in (('ct_equation', '='), ('ct_interval', ',')):
            out.append(W('str_%s%d' % (w, i), 'std::string', '', SS % ('(vm::%s<%s, %s >())' % (w, cpp(a), cpp(b))), post(lambda r, a=a, b=b, w=w, sep=sep: (two(r, w, sep), (a, b))), hints=HINTS))
    return out
def vec_wrappers():
    out = []
    for n in (1, 2, 3):
        a = 'xyz'[:n]
        def post(c, o, a=a):
            if o.kind != 'ret': c.x.oblige(o.st, P, 'every vector has a text', False, str(o.val)); return
            ps = text.text(o.st, c.out); r = CReader(norep(ps), {}); g = []
            try:
                r.word('vector'); r.word('<')
                for i, k in enumerate(a):
                    if i: r.word(',')
                    t = r.nx()
                    if t[0] != 'dbl': raise Unreadable('component')
                    g.append(t[1] == c.a[k].num)
                r.word('>')
                if r.i < len(r.t): raise Unreadable('end')
            except Unreadable as e: c.x.oblige(o.st, P, 'the text is fully bracketed', False, '%s: %s' % (show(ps), e)); return
            c.x.oblige(o.st, P, 'the components in order', z3.And(g), show(ps)); U.leaks(c.x, o.st, set())
        out.append(W('str_vec%d' % n, 'std::string', ' '.join('d:' + k for k in a), 'std::stringstream ss; ss << vm::ct_vector_%d<%s>(%s); return ss.str();' % (n, ','.join(['double'] * n), ','.join(a)), post, hints=HINTS))
    return out
def tus(prop, tier):
    if prop != 'P28': return []
    ws = wrappers() + ct_wrappers() + vec_wrappers()
    def gen(S):
        out = [('w.' + w.uid, 'w__' + w.uid, lambda x, w=w: run_wrapper(x, w), w.hints) for w in ws if 'w__' + w.uid in S.m.funcs and not w.uid.startswith('tag_')]
        for n, r, t, k, f in U.override_units(S.con0):
            if r == 'E' and k == 'str' and 'deep_str' in S.m.demangled(f): out.append((n.replace('.str', '.deep_str'), f, lambda x, t=t, f=f: deep(x, t, f), HINTS))
        return out
    return [TU('trees', HEAD, [w.line() for w in ws], gen)]
