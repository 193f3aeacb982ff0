"""The facts about specification functions that the runtime proofs use beyond the
definitional equations, proved by structural induction over the expression
datatype: one case per constructor, the induction hypothesis for the sub-trees,
and with the facts themselves switched off in the prover (lem=False)."""
import z3, time, traceback
import logic as L
from logic import Expr, Op
from units import Result, sym_expr
from exec import Obl
e, e2 = z3.Const('lem_env', L.EnvS), L.env0
LEAF = lambda t: z3.Or(Expr.is_Const(t), Expr.is_ConstL(t), Expr.is_ConstI(t))
dX = z3.Const('lem_var', Expr)
LEMMAS = {
 'a constant has a derivative, which is zero': lambda t: z3.Implies(L.isconst(t), z3.And(L.difok(t, dX), z3.Implies(L.wd(t, e), L.dv(t, dX, e) == 0))),
 'constants evaluate everywhere to one value': lambda t: z3.Implies(L.isconst(t), z3.And(L.evok(t, e), L.evok(t, e2), L.ev(t, e) == L.ev(t, e2))),
 'what evaluates is numeric': lambda t: z3.Implies(L.evok(t, e), L.numeric(t)),
 'differentiable points are well-defined points': lambda t: z3.Implies(L.dwd(t, e), L.wd(t, e)),
 'what can be simplified has at least two units of work': lambda t: z3.Implies(L.cs(t), L.meas(t) >= 2),
 'a constant that is no leaf can be simplified': lambda t: z3.Implies(L.isconst(t), z3.Or(LEAF(t), L.cs(t))),
 'a constant leaf cannot be simplified': lambda t: z3.Implies(LEAF(t), z3.And(L.isconst(t), z3.Not(L.cs(t)))),
 'a constant is a leaf or a binary node': lambda t: z3.Implies(L.isconst(t), z3.Or(LEAF(t), Expr.is_Bin(t))),
 'vectors and function symbols do not evaluate': lambda t: z3.Implies(L.evok(t, e), z3.Not(z3.Or(Expr.is_Vec(t), Expr.is_Fun(t)))),
 'vectors have no value at a point': lambda t: z3.Implies(z3.Or(L.wd(t, e), L.dwd(t, e)), z3.Not(Expr.is_Vec(t))),
}
class Fresh:
    n = 0
    def fresh(self, s, pre): Fresh.n += 1; return z3.Const('%s!lem%d' % (pre, Fresh.n), s)
class Sess:
    m = None
    def __init__(self): self.p = L.Prover(); self.P = None
    def run(self, name, body, hints=None):
        r = Result(name); t0 = time.time()
        try: body(self, r)
        except Exception as x: r.err = 'internal: %s %s' % (x, ''.join(traceback.format_tb(x.__traceback__)[-3:]))
        r.time = time.time() - t0; return r
def body(prop, name):
    f = LEMMAS[name]
    def g(S, r):
        sat = 0
        for h in L.CTORS:
            t = sym_expr(Fresh(), h); sub = [c for c in t.children() if c.sort() == Expr]; hyp = [f(c) for c in sub]
            if h in ('Bin', 'Un'): hyp.append(L.bok(t.arg(0)) if h == 'Bin' else z3.Not(L.bok(t.arg(0))))      # well-formed trees: binary nodes hold binary operators
            goal = f(t); ops = [None]
            if h in ('Un', 'Bin'): ops = list(L.OPC) + ['PD', 'SINT', 'INT']
            st = 'proved'
            for o in ops:
                extra = [] if o is None else [t.arg(0) == L.OPC[o]] if o in L.OPC else [getattr(Op, 'is_' + o)(t.arg(0)), z3.Not(L.uok(t.arg(0))), z3.Not(L.bok(t.arg(0)))]
                v = S.p.check(hyp + extra, goal, lem=False)
                if v != 'unsat': st = 'failed' if v == 'sat' else 'unknown'; break
                sat += S.p.check(hyp + extra, lem=False) == 'sat'
            r.obls.append(Obl('lemma', (prop,), '%s: case %s' % (name, h), st, 'induction over the expression datatype', ''))
        r.ret = 1; r.reach = 'sat' if sat else 'vacuous'
    return g
USE = ('P01', 'P02', 'P03', 'P06', 'P07', 'P08', 'P09', 'P13', 'P15', 'P22', 'P23', 'P24')
class TU:
    head = None; dropped = (); error = None; lines = (); name = 'lemmas'
    def __init__(self, prop): self.sess = Sess(); self.prop = prop
    def gen(self, S): return [('lemma ' + n, '', body(self.prop, n), {}) for n in LEMMAS]
def tus(prop, tier): return [TU(prop)] if prop in USE else []
