"""Text model: std::string, string streams and std::map as sequences of pieces
(literal characters, numbers, translated sub-expressions), and the reader that
parses such a sequence with ordinary operator precedence."""
import re, z3
import logic as L
from logic import Expr, Op
from exec import *

STR = re.compile(r'^_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(.*)$')
SS = re.compile(r'^_ZNK?St7__cxx11\d+basic_[a-z]*stringstreamIcSt11char_traitsIcESaIcEE(.*)$')
MAP = re.compile(r'^_ZNK?St3mapI')
def get(st, tab, k): return st.ghost.get(tab, {}).get(k)
def put(st, tab, k, v): st.ghost[tab] = {**st.ghost.get(tab, {}), k: v}
def addr(p):
    if not isinstance(p, Ptr) or p.b is None: raise Unsupported('text object %r' % (p,))
    return (p.b, p.off)
def text(st, p):
    t = get(st, 'str', addr(p))
    if t is None: raise Unsupported('text of an untracked string %r %s' % (p, st.blocks[p.b].name))
    return t
def lit(x, st, p):
    if not isinstance(p, Ptr) or not isinstance(p.b, tuple): raise Unsupported('text of %r' % (p,))
    b = x.touch_global(st, p.b[1]); c = b.cells.get(0)
    if b.zero or c is None or not isinstance(c[1], bytes):
        if c is None or c[1] == 0: return ()
        raise Unsupported('text constant')
    s = c[1][p.off:].split(b'\0')[0].decode('latin1')
    return (('lit', s),) if s else ()
def join(a, b):
    if a and b and a[-1][0] == 'lit' and b[0][0] == 'lit': return a[:-1] + (('lit', a[-1][1] + b[0][1]),) + b[1:]
    return a + b
def model(M, st, n, args, rty):
    x = M.x; ret = M.ret
    m = STR.match(n)
    if m:
        r = m.group(1)
        if re.match(r'C[12]Ev', r) or r.startswith(('C1ERKS3_', 'C2ERKS3_')): put(st, 'str', addr(args[0]), ()); return ret(st)
        if re.match(r'C[12](EOS4_|ERKS4_)', r):
            put(st, 'str', addr(args[0]), text(st, args[1])); return ret(st)
        if re.match(r'C[12](IS3_vE|IS3_E|I.*)?EPKcRKS3_', r) or re.match(r'C[12]EPKc', r):
            put(st, 'str', addr(args[0]), lit(x, st, args[1])); return ret(st)
        if r.startswith(('aSEOS4_', 'aSERKS4_')): put(st, 'str', addr(args[0]), text(st, args[1])); return ret(st, args[0])
        if r.startswith('aSEPKc'): put(st, 'str', addr(args[0]), lit(x, st, args[1])); return ret(st, args[0])
        if r.startswith(('pLERKS4_', '6appendERKS4_')): put(st, 'str', addr(args[0]), join(text(st, args[0]), text(st, args[1]))); return ret(st, args[0])
        if r in ('pLEPKc', '6appendEPKc'): put(st, 'str', addr(args[0]), join(text(st, args[0]), lit(x, st, args[1]))); return ret(st, args[0])
        if r == 'pLEc': put(st, 'str', addr(args[0]), join(text(st, args[0]), char(args[1]))); return ret(st, args[0])
        if r.startswith(('D1Ev', 'D2Ev', '7reserve')): return ret(st)
        if r in ('4sizeEv', '6lengthEv'):
            t = text(st, args[0])
            if not t: return ret(st, 0)
            if all(p[0] == 'rep' for p in t): raise Unsupported('length of a text written by a loop')
            v = x.fresh(L.BV64, 'len'); x.assume(st, z3.UGT(v, 0)); return ret(st, v)
        if r == '5emptyEv':
            t = text(st, args[0])
            if t and all(p[0] == 'rep' for p in t): raise Unsupported('length of a text written by a loop')
            return ret(st, int(not t))
        if r == '5clearEv': put(st, 'str', addr(args[0]), ()); return ret(st)
        if r == '5c_strEv': return ret(st, Opaque('chars'))
        raise Unsupported('string method ' + r[:60])
    m = SS.match(n)
    if m:
        r = m.group(1)
        if re.match(r'C[12]Ev', r): put(st, 'ss', args[0].b, ()); return ret(st)
        if re.match(r'D[012]Ev', r): return ret(st)
        if r.startswith('3strEv'):
            t = get(st, 'ss', args[-1].b)
            if t is None: raise Unsupported('untracked stream')
            put(st, 'str', addr(args[0]), t); return ret(st)
        raise Unsupported('stream method ' + r[:60])
    if n.startswith('_ZNSaIcE'): return ret(st, args[0] if args else None)
    k = None
    if n.startswith('_ZStlsISt11char_traitsIcEERSt13basic_ostream') and n.endswith('PKc'): k = 'lit'
    elif n.startswith('_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostream'): k = 'str'
    elif n.startswith('_ZStlsISt11char_traitsIcEERSt13basic_ostream') and n.endswith('c'): k = 'chr'
    elif re.match(r'^_ZNSolsE[mjilx]$', n): k = 'int'
    elif n == '_ZNSolsEd': k = 'dbl'
    elif n.startswith('_ZNSolsE'): k = 'other'
    if k:
        os = args[0]
        if not isinstance(os, Ptr) or os.b is None or isinstance(os.b, tuple): return ret(st, os)      # standard streams
        t = get(st, 'ss', os.b)
        if t is None: raise Unsupported('untracked stream')
        a = args[1]
        if k == 'lit': p = lit(x, st, a)
        elif k == 'str': p = text(st, a)
        elif k == 'chr': p = char(a)
        elif k == 'int': p = (('int', x.bv(a)),)
        elif k == 'dbl': p = (('dbl', x.real(a)),)
        else: raise Unsupported('stream output ' + n)
        put(st, 'ss', os.b, join(t, p)); return ret(st, os)
    if n.startswith('_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_string'):
        tl = n.split('EET_T0_T1_EE')[-1] if False else None
        d = x.m.demangled(n); d = d[d.index('operator+'):]; ps = d[d.index('(') + 1:]
        f = lambda a: lit(x, st, a) if isinstance(a, Ptr) and isinstance(a.b, tuple) else char(a) if isinstance(a, int) else text(st, a)
        put(st, 'str', addr(args[0]), join(f(args[1]), f(args[2]))); return ret(st)
    if MAP.match(n):
        d = x.m.demangled(n); key2 = d.startswith('std::map<std::pair<unsigned long, unsigned long>'); ks = 16 if key2 else 8
        if not key2 and not d.startswith('std::map<unsigned long,') or 'basic_string' not in d[:140]: raise Unsupported('map ' + d[:80])
        meth = re.search(r'>::(operator\[\]|~?\w+)\((?:[^()]|\([^()]*\))*\)(?: const)?$', d)
        meth = meth.group(1) if meth else '?'; a = addr(args[0])
        if meth == 'map' and len(args) == 1: put(st, 'map', a, ()); return ret(st)
        if meth == '~map': return ret(st)
        if meth in ('map', 'operator=', 'swap') and len(args) == 2:
            es = get(st, 'map', addr(args[1]))
            if es is None or (meth == 'swap' and get(st, 'map', a) is None): raise Unsupported('untracked map')
            if meth == 'swap': put(st, 'map', addr(args[1]), get(st, 'map', a)); put(st, 'map', a, es); return ret(st)
            new = []
            for kv, eb in es:
                b = x.new_block(st, 'ext', 32 + ks + 32, 'map entry')
                for i, v in enumerate(kv): b.cells[32 + 8 * i] = (8, v)
                put(st, 'str', (b.id, 32 + ks), get(st, 'str', (eb, 32 + ks))); new.append((kv, b.id))
            put(st, 'map', a, tuple(new)); return ret(st, args[0] if meth == 'operator=' else None)
        if meth == 'clear': put(st, 'map', a, ()); return ret(st)
        es = get(st, 'map', a)
        if es is None: raise Unsupported('untracked map')
        if meth in ('end', 'cend'): return ret(st, mapend(st))
        if meth in ('find', 'operator[]', 'count'):
            kp = args[1]; out = []
            def key(s, q, o):
                r = x.load(s, Ptr(q.b, q.off + o, q.idx), Ty('int', 64))
                if len(r) != 1: raise Unsupported('map key')
                return x.bv(r[0][1])
            kv = [key(st, kp, o) for o in range(0, ks, 8)]; cur = st
            for ek, eb in es:
                nxt = None
                for s2, tv in x.branch(cur, z3.And([p == q for p, q in zip(ek, kv)])):
                    if tv: out.append(Outcome(s2, 'ret', 1 if meth == 'count' else Ptr(eb, 0 if meth == 'find' else 32 + ks)))
                    else: nxt = s2
                cur = nxt
                if cur is None: return out
            if meth == 'find': out.append(Outcome(cur, 'ret', mapend(cur)))
            elif meth == 'count': out.append(Outcome(cur, 'ret', 0))
            else:
                b = x.new_block(cur, 'ext', 32 + ks + 32, 'map entry')
                for i, v in enumerate(kv): b.cells[32 + 8 * i] = (8, v)
                put(cur, 'str', (b.id, 32 + ks), ()); put(cur, 'map', a, es + ((tuple(kv), b.id),))
                out.append(Outcome(cur, 'ret', Ptr(b.id, 32 + ks)))
            return out
        raise Unsupported('map method ' + meth)
    return None
def mapend(st):
    k = ('g', 'map-end')
    if k not in st.blocks: st.put(Block(k, 'global', 0))
    return Ptr(k, 0)
def char(v):
    if not isinstance(v, int): raise Unsupported('character')
    return (('lit', chr(v & 255)),)
def show(ps): return ''.join(p[1] if p[0] == 'lit' else '<%s%s>' % (str(p[1])[:60], '' if p[0] != 'tr' else ',%s' % p[2]) for p in ps)
# ---------------------------------------------------------------- reader
class Unreadable(Exception): pass
def lex(ps):
    """tokens: ('cmd', name) ('let', c) ('num', text) ('sym', c) or a piece"""
    out = []
    if any(p[0] == 'rep' for p in ps): raise Unsupported('text written by a loop')
    for i, p in enumerate(ps):
        if p[0] != 'lit': out.append(p); continue
        s = p[1]; j = 0
        while j < len(s):
            c = s[j]
            if c.isspace(): j += 1; continue
            if c == '\\':
                m = re.match(r'\\([A-Za-z]+)', s[j:])
                if m:
                    j += m.end()
                    if j == len(s) and i + 1 < len(ps): raise Unreadable('command \\%s runs into the following text' % m.group(1))
                    if m.group(1) not in ('quad', 'qquad', 'limits'): out.append(('cmd', m.group(1)))
                    continue
                if s[j:j + 2] in ('\\:', '\\,', '\\;', '\\!', '\\ '): j += 2; continue
                out.append(('sym', s[j:j + 2])); j += 2; continue
            m = re.match(r'\d+(\.\d+)?', s[j:])
            if m:
                if j + m.end() == len(s) and i + 1 < len(ps) and ps[i + 1][0] in ('int', 'dbl'): raise Unreadable('number runs into a number')
                out.append(('num', m.group(0))); j += m.end(); continue
            out.append(('let' if c.isalpha() else 'sym', c)); j += 1
    return out
FUNS = {'exp': 'EXP', 'sin': 'SIN', 'cos': 'COS', 'tan': 'TAN', 'ln': 'LOG', 'log': 'LOG10'}
class Reader:
    def __init__(self, ps): self.t = lex(ps); self.i = 0
    def pk(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else ('end',)
    def nx(self): r = self.pk(); self.i += 1; return r
    def at(self, *tok): return self.pk()[:len(tok)] == tok
    def eat(self, *tok):
        if not self.at(*tok): raise Unreadable('expected %s, found %s' % (tok[-1], str(self.pk())[:60]))
        self.i += 1
    def all(self):
        r = self.sum()
        if self.i < len(self.t): raise Unreadable('unexpected %s' % str(self.pk())[:60])
        return r
    # -> (tree, level): 0 factor, 1 product, 2 sum
    def sum(self):
        a, l = self.term()
        while self.at('sym', '+') or self.at('sym', '-'):
            o = self.nx()[1]; b, lb = self.term()
            if o == '-' and lb == 2: raise Unreadable('a sum after a minus sign without parentheses')
            a, l = ('bin', 'PLUS' if o == '+' else 'MINUS', a, b), 2
        return a, l
    def term(self):
        a, l = self.factor()
        while self.at('cmd', 'cdot') or self.at('cmd', 'times'):
            self.nx(); b, lb = self.factor()
            if l == 2 or lb: raise Unreadable('operand of a product without parentheses')
            a, l = ('bin', 'MULT', a, b), 1
        return a, l
    def tight(self):
        a, l = self.factor()
        if l: raise Unreadable('argument without parentheses')
        return a
    def group(self, inner=None):
        self.eat('sym', '{'); r = (inner or (lambda: self.sum()[0]))(); self.eat('sym', '}'); return r
    def index(self):
        self.eat('sym', '_'); braces = self.at('sym', '{')
        if braces: self.nx()
        t = self.nx()
        if t[0] == 'int': r = t[1]
        elif t[0] == 'num': r = z3.BitVecVal(int(t[1]), 64)
        else: raise Unreadable('index')
        if braces: self.eat('sym', '}')
        return r
    def factor(self):
        t = self.nx()
        if t[0] == 'tr': return ('h', t[1]), 0 if t[2] else 2
        if t[0] == 'dbl': return ('const', t[1]), 0
        if t[0] == 'num': return ('const', L.rv(Fraction(t[1]))), 0
        if t[0] == 'cust': return t, 0
        if t[0] == 'let' and t[1] in 'xuv':
            k = self.index(); return (('var', k) if t[1] == 'x' else ('fun', t[1], k)), 0
        if t == ('cmd', 'left') and self.at('sym', '('):
            self.nx(); a = self.sum()[0]; self.eat('cmd', 'right'); self.eat('sym', ')'); return a, 0
        if t == ('sym', '('):
            a = self.sum()[0]; self.eat('sym', ')'); return a, 0
        if t == ('cmd', 'left') and self.at('sym', '|'):
            self.nx(); a = self.sum()[0]; self.eat('cmd', 'right'); self.eat('sym', '|'); return ('un', 'FABS', a), 0
        if t[0] == 'cmd':
            c = t[1]
            if c in FUNS: return ('un', FUNS[c], self.tight()), 0
            if c == 'sqrt': return ('un', 'SQRT', self.group()), 0
            if c == 'nabla':
                d = self.at('cmd', 'cdot')
                if d: self.nx()
                return ('un', 'DIVG' if d else 'GRAD', self.tight()), 0
            if c == 'frac':
                if self.pk(1) == ('cmd', 'partial'):
                    def num(): self.eat('cmd', 'partial'); return self.tight()
                    a = self.group(num); return ('pd', a, self.group(num)), 0
                a = self.group(); return ('bin', 'DIVI', a, self.group()), 0
            if c == 'int':
                self.eat('sym', '_'); self.eat('sym', '{')
                if self.at('cmd', 'Omega'):
                    self.nx(); k = self.index(); lim = None
                else:
                    self.eat('sym', '['); lo = self.sum()[0]; self.eat('sym', ';'); hi = self.sum()[0]; self.eat('sym', ']'); lim = (lo, hi)
                self.eat('sym', '}'); body = self.sum()[0]; self.eat('cmd', 'mathrm'); self.eat('sym', '{'); self.eat('let', 'd'); self.eat('sym', '}')
                if lim is None: self.eat('cmd', 'Omega'); return ('sint', k, body), 0
                return ('int', lim, body, self.tight()), 0
        raise Unreadable('unexpected %s' % str(t)[:60])
def match(a, t, test, cust):
    """the tree read is the expression t"""
    k = a[0]; M = lambda b, u: match(b, u, test, cust)
    if k == 'h': r = t == a[1]
    elif k == 'const': r = t == Expr.Const(a[1])
    elif k == 'var': r = t == Expr.Var(a[1])
    elif k == 'fun': r = z3.And(Expr.is_Fun(t), Expr.fid(t) == a[2], (Expr.ftag(t) == test) == (a[1] == 'v'))
    elif k == 'cust': r = cust(t)
    elif k == 'bin': r = z3.And(Expr.is_Bin(t), Expr.bop(t) == getattr(Op, a[1]), M(a[2], Expr.blhs(t)), M(a[3], Expr.brhs(t)))
    elif k == 'un': r = z3.And(Expr.is_Un(t), Expr.uop(t) == getattr(Op, a[1]), M(a[2], Expr.uarg(t)))
    elif k == 'pd': r = z3.And(Expr.is_Un(t), Op.is_PD(Expr.uop(t)), M(a[1], Expr.uarg(t)), M(a[2], Expr.Var(Op.pd_id(Expr.uop(t)))))
    elif k == 'sint': r = z3.And(Expr.is_Un(t), Op.is_SINT(Expr.uop(t)), Op.si_id(Expr.uop(t)) == a[1], M(a[2], Expr.uarg(t)))
    elif k == 'int':
        o = Expr.uop(t); r = z3.And(Expr.is_Un(t), Op.is_INT(o), M(a[1][0], Op.in_lo(o)), M(a[1][1], Op.in_hi(o)), M(a[2], Expr.uarg(t)), M(a[3], Expr.Var(Op.in_var(o))))
    return z3.Or(r, z3.And(Expr.is_Un(t), Expr.uop(t) == Op.ID, match1(a, Expr.uarg(t)))) if k == 'h' else r
def match1(a, t): return t == a[1]
