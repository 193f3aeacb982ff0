"""LaTeX output: the translator's own code is executed with strings, streams and
maps modelled as sequences of pieces; the text of an operand is the translator's
contract (parenthesised when asked for), the text returned is parsed by a reader
with ordinary precedence and must read as the expression."""
import re, z3
import logic as L
from logic import Expr, Op
from exec import *
from suite_wrap import W, HEAD, run_wrapper
import text
from build import TU
P = ('P25',)
PROC = re.compile(r'rt_latex_\w+_processor<.*>::process')
TRANS = r'rt_latex_translator<viennamath::rt_expression_interface<double> ?>::operator\(\)(?:\[abi:cxx11\])?(?:<.*>)?\(viennamath::rt_%s<'
def rtexpr(x, st, e):
    b = x.deref(st, e, 'operand of the translator')
    if b is None: return None
    c = b.cells.get(e.off + x.con.accessor('expr', 0))
    if c is None: raise Unsupported('expression wrapper')
    return x.con.fold(st, c[1])
def nested(x, st, args, wrapped=True):
    """a translation asked for by a processor: the contract of the translator for that operand"""
    if not any(PROC.search(x.m.demangled(f)) for f in x.stack): return None
    out, this, e, flag = args[:4]
    t = rtexpr(x, st, e) if wrapped else x.con.fold(st, e)
    if t is None: return []
    if x.con.measure is not None: x.oblige(st, P, 'translation of an operand terminates', z3.simplify(L.size(t) < x.con.measure[1]))
    res = []
    for s2, up in x.branch(st, x.cond(flag)):
        text.put(s2, 'str', text.addr(out), (('tr', t, up or t.decl().name() in ('Var', 'Fun', 'Const')),)); res.append(Outcome(s2, 'ret'))
    return res
HINTS = {'text': True, 'calls': [(re.compile(TRANS % 'expr'), nested), (re.compile(TRANS % '(binary_expr|unary_expr|variable|function_symbol|constant)'), lambda x, st, a: nested(x, st, a, False))]}
def printable(t): return z3.Not(z3.Or(Expr.is_ConstL(t), Expr.is_ConstI(t), Expr.is_Vec(t)))
def reads(T, up, cust=None, pre=None):
    def post(c, o):
        t = T(c); x = c.x
        if o.kind != 'ret': x.oblige(o.st, P, 'every expression has a text', False, str(o.val)); return
        ps = text.text(o.st, c.out); shown = text.show(ps)
        tag = x.fresh(L.BV64, 'testtag') if False else testtag(c)
        try: tree, lev = text.Reader(ps).all()
        except text.Unreadable as e: x.oblige(o.st, P, 'the text can be read with ordinary precedence', False, '%s: %s' % (shown, e)); return
        if lev: x.oblige(o.st, P, 'a text asked for with parentheses, and the text of a leaf, is a single factor', False if up else z3.Not(z3.Or(Expr.is_Var(t), Expr.is_Fun(t), Expr.is_Const(t))), shown)
        x.oblige(o.st, P, 'the text reads as the expression', text.match(tree, t, tag, cust and cust(c)), shown)
        import units as U; U.leaks(x, o.st, set())
    return post
def testtag(c):
    x = c.x; st = State(); q, x.quiet = x.quiet, 1
    outs = x.call_function(st, 'w__testtag', []); x.quiet = q
    if len(outs) != 1: raise Unsupported('test tag')
    return x.bv(outs[0].val)
TT = 'vm::rt_latex_translator<> t; '
def wrappers():
    out = [W('testtag', 'unsigned long', '', 'vm::test_tag<>::tag_id()', lambda c, o: None)]
    def pre(c): c.x.assume(c.st0, printable(c.a['e'].term)); c.x.con.measure = (9, L.size(c.a['e'].term), 0)
    E = lambda c: c.a['e'].term
    for k in 'EBUVF':
        for up in (0, 1): out.append(W('tex_%s%d' % (k, up), 'std::string', k + ':e', TT + 'return t(e, %s);' % ('true' if up else 'false'), reads(E, up), pre=pre, hints=HINTS))
    for up in (0, 1): out.append(W('tex_copy%d' % up, 'std::string', 'E:e', TT + 'vm::rt_latex_translator<> t2(t); return t2(e, %s);' % ('true' if up else 'false'), reads(E, up), pre=pre, hints=HINTS))
    out.append(W('tex_default', 'std::string', 'E:e', TT + 'return t(e);', reads(E, 0), pre=pre, hints=HINTS))
    # a customised variable or function symbol is printed by its own text, everything else as before
    for k in 'VF':
        def cust(c): return lambda t: t == c.a['v'].term
        for up in (0, 1): out.append(W('tex_cust%s%d' % (k, up), 'std::string', k + ':v E:e S:s', TT + 't.customize(v, s); return t(e, %s);' % ('true' if up else 'false'), reads(E, up, cust), pre=pre, hints=HINTS))
        out.append(W('tex_custcopy%s' % k, 'std::string', k + ':v E:e S:s', TT + 't.customize(v, s); vm::rt_latex_translator<> t2(t); return t2(e);', reads(E, 0, cust), pre=pre, hints=HINTS))
        out.append(W('tex_custasg%s' % k, 'std::string', k + ':v E:e S:s', TT + 't.customize(v, s); vm::rt_latex_translator<> t2; t2 = t; return t2(e);', reads(E, 0, cust), pre=pre, hints=HINTS))
        out.append(W('tex_custsrc%s' % k, 'std::string', k + ':v E:e S:s', TT + 'vm::rt_latex_translator<> t2(t); t2.customize(v, s); return t(e);', reads(E, 0), pre=pre, hints=HINTS))
        out.append(W('tex_custover%s' % k, 'std::string', k + ':v E:e S:s', TT + 't.customize(v, s); { vm::rt_latex_translator<> t2; t = t2; } return t(e);', reads(E, 0), pre=pre, hints=HINTS))
        out.append(W('tex_custself%s' % k, 'std::string', k + ':v E:e S:s', TT + 't.customize(v, s); vm::rt_latex_translator<>& r = t; t = r; return t(e);', reads(E, 0, cust), pre=pre, hints=HINTS))
    # equations and intervals: both sides in order
    def sides(kind):
        def post(c, o):
            x = c.x; a = c.a['e'].sides
            if o.kind != 'ret': x.oblige(o.st, P, 'every expression has a text', False); return
            ps = text.text(o.st, c.out); r = text.Reader(ps)
            try:
                if kind == 'Q': u = r.sum()[0]; r.eat('sym', '='); v = r.sum()[0]
                else: r.eat('sym', '['); u = r.sum()[0]; r.eat('sym', ';'); v = r.sum()[0]; r.eat('sym', ']')
                if r.i < len(r.t): raise text.Unreadable('trailing text')
            except text.Unreadable as e: x.oblige(o.st, P, 'the text can be read with ordinary precedence', False, '%s: %s' % (text.show(ps), e)); return
            g = testtag(c); x.oblige(o.st, P, 'both sides in order', z3.And(text.match(u, a[0], g, None), text.match(v, a[1], g, None)), text.show(ps))
        return post
    def top(x, st, args):
        # the sides are translated by the translator itself
        if not any('rt_latex_translator' in x.m.demangled(f) for f in x.stack): return None
        return nested_any(x, st, args)
    for k in 'QN': out.append(W('tex_%s' % k, 'std::string', k + ':e', TT + 'return t(e);', sides(k), hints={'text': True, 'calls': [(re.compile(TRANS % 'expr'), top)]}))
    return out
def nested_any(x, st, args):
    out, this, e, flag = args[:4]
    t = rtexpr(x, st, e)
    text.put(st, 'str', text.addr(out), (('tr', t, x.cond(flag) is True),)); return [Outcome(st, 'ret')]
def tus(prop, tier):
    if prop != 'P25': return []
    ws = wrappers()
    def gen(S): return [('w.' + w.uid, 'w__' + w.uid, lambda x, w=w: run_wrapper(x, w), w.hints) for w in ws if 'w__' + w.uid in S.m.funcs and w.uid != 'testtag']
    return [TU('latex', HEAD, [w.line() for w in ws], gen)]
