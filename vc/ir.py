"""Textual LLVM-18 IR reader (the subset clang -O0 emits for C++).

Nothing is dropped except: metadata, debug intrinsics, attributes, alignment,
linkage, comdat.  Function bodies are parsed lazily.
"""
import os, re, struct, subprocess
from fractions import Fraction

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'n')
    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k == 'array': return '[%d x %r]' % (self.n, self.a)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.a))
        if self.k == 'named': return '%' + self.a
        return self.k

PTR, VOID, DOUBLE, FLOAT, LABEL = Ty('ptr'), Ty('void'), Ty('double'), Ty('float'), Ty('label')
TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-\w$.]+))
 | (?P<glob>@(?:"[^"]*"|[-\w$.]+))
 | (?P<md>![-\w$.]*(?:\([^)]*\))?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[-+]?\d+)?)?)
 | (?P<word>[A-Za-z_$.][\w$.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '' or s[i:].strip().startswith(';'):
                break
            if s[i] == ';':
                break
            raise IRError('tokenize: %r' % s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    out.append(('eof', ''))
    return out

def unq(n):
    n = n[1:]
    return n[1:-1] if n.startswith('"') else n

PARAM_ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'returned',
              'immarg', 'writeonly', 'writable', 'dead_on_unwind', 'readnone', 'nofree', 'noreturn', 'nounwind', 'allocptr', 'swiftself'}
PARAM_ATTR_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'captures', 'range', 'byref', 'memory', 'allocsize'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

class P:
    def __init__(self, s):
        self.t = tokenize(s); self.i = 0; self.s = s
    def peek(self): return self.t[self.i]
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def at(self, v): return self.t[self.i][1] == v and self.t[self.i][0] != 'str'
    def eat(self, v):
        if self.at(v):
            self.i += 1; return True
        return False
    def need(self, v):
        if not self.eat(v):
            raise IRError('expected %r got %r in %r' % (v, self.peek(), self.s[:200]))
    def type(self):
        k, v = self.next()
        if k == 'word':
            m = re.fullmatch(r'i(\d+)', v)
            if m: t = Ty('int', int(m.group(1)))
            elif v == 'ptr':
                t = PTR
                if self.eat('addrspace'):
                    self.need('('); self.next(); self.need(')')
            elif v == 'void': t = VOID
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'label': t = LABEL
            elif v in ('x86_fp80', 'metadata', 'token', 'half', 'fp128', 'opaque'): t = Ty(v)
            else: raise IRError('type %r in %r' % (v, self.s[:160]))
        elif k == 'loc': t = Ty('named', unq(v))
        elif v == '[':
            n = int(self.next()[1]); self.need('x'); e = self.type(); self.need(']')
            t = Ty('array', e, n)
        elif v == '{':
            t = Ty('struct', self.tlist('}'))
        elif v == '<':
            if self.at('{'):
                self.next(); t = Ty('pstruct', self.tlist('}')); self.need('>')
            else:
                n = int(self.next()[1]); self.need('x'); e = self.type(); self.need('>')
                t = Ty('vector', e, n)
        else: raise IRError('type tok %r %r in %r' % (k, v, self.s[:160]))
        while self.at('('):   # function type
            self.next(); ps = []
            while not self.eat(')'):
                if self.eat('...'): pass
                else: ps.append(self.type()); self.attrs()
                self.eat(',')
            t = Ty('func', (t, ps))
        while self.eat('*'): t = PTR
        return t
    def tlist(self, end):
        out = []
        while not self.eat(end):
            out.append(self.type()); self.eat(',')
        return out
    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTR: self.i += 1
            elif k == 'word' and v in PARAM_ATTR_P:
                self.i += 1
                if self.at('('): self.skip_par()
                elif self.peek()[0] == 'num': self.i += 1
            elif k == 'attr': self.i += 1
            elif k == 'str':
                self.i += 1
                if self.eat('='): self.i += 1
            else: return
    def skip_par(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == '(': d += 1
            elif v == ')':
                d -= 1
                if d == 0: return
    # value: ('loc',name) ('g',name) ('int',n) ('fp',Fraction|str) ('null',) ('undef',) ('zero',) ('agg',[(ty,val)]) ('ce',op,...) ('str',bytes)
    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('loc', unq(v))
        if k == 'glob': return ('g', unq(v))
        if k == 'num':
            if ty.k in ('double', 'float'): return ('fp', Fraction(v))
            return ('int', int(v))
        if k == 'hex':
            return ('fp', hexfp(v))
        if k == 'str': return ('str', cstr(v))
        if k == 'word':
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('null',)
            if v == 'getelementptr':
                self.eat('inbounds'); 
                while self.peek()[1] in ('nuw', 'nusw', 'inrange'):
                    self.i += 1
                    if self.at('('): self.skip_par()
                self.need('('); bt = self.type(); self.need(','); args = []
                while not self.eat(')'):
                    if self.eat('inrange'):
                        if self.at('('): self.skip_par()
                    t = self.type(); args.append((t, self.value(t))); self.eat(',')
                return ('ce', 'gep', bt, args)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
                self.need('('); t = self.type(); x = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
                return ('ce', v, t, x, t2)
            if v in ('add', 'sub'):
                while self.peek()[1] in ('nuw', 'nsw'): self.i += 1
                self.need('('); t = self.type(); x = self.value(t); self.need(','); t2 = self.type(); y = self.value(t2); self.need(')')
                return ('ce', v, t, x, y)
        if v in ('{', '['):
            end = '}' if v == '{' else ']'
            out = []
            while not self.eat(end):
                t = self.type(); out.append((t, self.value(t))); self.eat(',')
            return ('agg', out)
        if v == '<' and self.at('{'):
            self.next(); out = []
            while not self.eat('}'):
                t = self.type(); out.append((t, self.value(t))); self.eat(',')
            self.need('>')
            return ('agg', out)
        raise IRError('value %r %r in %r' % (k, v, self.s[:200]))
    def tv(self):
        t = self.type(); self.attrs(); return t, self.value(t)

def hexfp(v):
    if re.match(r'0x[KLMHR]', v): return v
    b = int(v, 16)
    d = struct.unpack('>d', struct.pack('>Q', b))[0]
    if d != d or d in (float('inf'), float('-inf')): return str(d)
    return Fraction(d)

def cstr(v):
    v = v[2:-1] if v.startswith('c') else v[1:-1]
    out = bytearray(); i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(v[i])); i += 1
    return bytes(out)

class Ins:
    __slots__ = ('op', 'dst', 'a', 'line')
    def __init__(self, op, dst, a, line): self.op, self.dst, self.a, self.line = op, dst, a, line
    def __repr__(self): return self.line.strip()

class Func:
    def __init__(self, name, rty, params, body_lines, sret):
        self.name, self.rty, self.params, self.lines, self.sret = name, rty, params, body_lines, sret
        self._b = None
    @property
    def blocks(self):
        if self._b is None: self._parse()
        return self._b
    def _parse(self):
        blocks, cur = {}, None
        order = []
        lines = self.lines; i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            s = ln.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("(?:[^"]*)"|[-\w$.]+):', ln)
            if m:
                cur = m.group(1).strip('"'); blocks[cur] = []; order.append(cur); continue
            if cur is None:
                cur = self.entry_label; blocks[cur] = []; order.append(cur)
            # joined multi-line instructions: switch, invoke, landingpad
            if re.match(r'(?:%\S+ = )?invoke ', s) or s.endswith('['):
                if s.endswith('['):
                    while not lines[i - 1].strip().startswith(']'):
                        s += ' ' + lines[i].strip(); i += 1
                else:
                    s += ' ' + lines[i].strip(); i += 1
            elif re.match(r'(?:%\S+ = )?landingpad ', s):
                while re.match(r'\s*(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            ins = parse_ins(s)
            if ins is not None: blocks[cur].append(ins)
        self._b = blocks
        self.order = order
    @property
    def entry(self):
        self.blocks
        return self.order[0]

def parse_call(p, op):
    # after 'call'/'invoke': [cc] [ret attrs] type callee(args)
    while p.peek()[0] == 'word' and p.peek()[1] in FMF: p.i += 1
    p.attrs()
    rty = p.type()
    if rty.k == 'func': rty = rty.a[0]
    k, v = p.next()
    if k == 'glob': cal = ('g', unq(v))
    elif k == 'loc': cal = ('loc', unq(v))
    elif v == 'asm': raise IRError('asm')
    else:
        p.i -= 1; cal = p.value(PTR)
    p.need('(')
    args = []
    while not p.eat(')'):
        t = p.type(); p.attrs()
        if t.k == 'metadata':
            d = 0
            while True:
                kk, vv = p.peek()
                if d == 0 and vv in (',', ')'): break
                if vv == '(': d += 1
                if vv == ')': d -= 1
                p.i += 1
            args.append((t, ('undef',)))
        else: args.append((t, p.value(t)))
        p.eat(',')
    p.attrs()
    return rty, cal, args

BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'}

def parse_ins(s):
    if 'call void @llvm.dbg' in s: return None
    s0 = s
    if ', !dbg !' in s: s = re.sub(r', !dbg !\d+', '', s)
    p = P(s)
    dst = None
    if p.peek()[0] == 'loc' and p.t[p.i + 1][1] == '=':
        dst = unq(p.next()[1]); p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'): op = p.next()[1]
    I = lambda *a: Ins(op, dst, a, s0)
    if op == 'alloca':
        t = p.type(); cnt = None
        if p.eat(',') and not p.at('align'):
            cnt = p.tv()
        return I(t, cnt)
    if op == 'load':
        p.eat('atomic'); p.eat('volatile'); t = p.type(); p.need(','); _, ptr = p.tv(); return I(t, ptr)
    if op == 'store':
        p.eat('atomic'); p.eat('volatile'); t, v = p.tv(); p.need(','); _, ptr = p.tv(); return I(t, v, ptr)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.i += 1
        bt = p.type(); p.need(','); _, b = p.tv(); idx = []
        while p.eat(','):
            if p.peek()[0] == 'md': break
            idx.append(p.tv())
        return I(bt, b, idx)
    if op == 'call':
        return I(*parse_call(p, op))
    if op == 'invoke':
        r = parse_call(p, op)
        p.need('to'); p.need('label'); a = unq(p.next()[1]); p.need('unwind'); p.need('label'); b = unq(p.next()[1])
        return I(*r, a, b)
    if op == 'br':
        if p.eat('label'): return I(unq(p.next()[1]))
        t, c = p.tv(); p.need(','); p.need('label'); a = unq(p.next()[1]); p.need(','); p.need('label'); b = unq(p.next()[1])
        return I(c, a, b)
    if op == 'switch':
        t, v = p.tv(); p.need(','); p.need('label'); d = unq(p.next()[1]); p.need('['); cs = []
        while not p.eat(']'):
            t2, cv = p.tv(); p.need(','); p.need('label'); cs.append((cv, unq(p.next()[1])))
        return I(t, v, d, cs)
    if op == 'ret':
        if p.at('void'): return I(VOID, None)
        t, v = p.tv(); return I(t, v)
    if op in BIN or op in FBIN:
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek()[1] in FMF: p.i += 1
        t = p.type(); a = p.value(t); p.need(','); b = p.value(t); return I(t, a, b)
    if op == 'fneg':
        while p.peek()[1] in FMF: p.i += 1
        t, a = p.tv(); return I(t, a)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FMF or p.peek()[1] == 'samesign': p.i += 1
        pred = p.next()[1]; t = p.type(); a = p.value(t); p.need(','); b = p.value(t); return I(pred, t, a, b)
    if op in CAST:
        p.eat('nneg'); t = p.type(); a = p.value(t); p.need('to'); t2 = p.type(); return I(t, a, t2)
    if op == 'select':
        while p.peek()[1] in FMF: p.i += 1
        _, c = p.tv(); p.need(','); t, a = p.tv(); p.need(','); _, b = p.tv(); return I(c, t, a, b)
    if op == 'phi':
        while p.peek()[1] in FMF: p.i += 1
        t = p.type(); inc = []
        while p.eat('['):
            v = p.value(t); p.need(','); inc.append((v, unq(p.next()[1]))); p.need(']'); p.eat(',')
        return I(t, inc)
    if op == 'landingpad':
        t = p.type(); cl = []; cleanup = False
        while True:
            if p.eat('cleanup'): cleanup = True
            elif p.eat('catch'): cl.append(('catch', p.tv()[1]))
            elif p.eat('filter'): cl.append(('filter', p.tv()[1]))
            else: break
        return I(t, cleanup, cl)
    if op == 'resume':
        return I(*p.tv())
    if op == 'unreachable': return I()
    if op == 'extractvalue':
        t, v = p.tv(); ix = []
        while p.eat(','): ix.append(int(p.next()[1]))
        return I(t, v, ix)
    if op == 'insertvalue':
        t, v = p.tv(); p.need(','); t2, e = p.tv(); ix = []
        while p.eat(','): ix.append(int(p.next()[1]))
        return I(t, v, e, ix)
    if op == 'freeze':
        return I(*p.tv())
    return Ins('unsupported', dst, (op,), s)

class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}
        lines = text.split('\n'); i = 0
        if os.environ.get('VP_COV'): self.meta = [l for l in lines if l.startswith('!')]
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
                if m: self.types[unq(m.group(1))] = m.group(2)
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self._func(ln, lines[i + 1:j]); i = j
            elif ln.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                if m: self.decls[unq(m.group(1))] = ln
            i += 1
        self._ty = {}
        self._demangle()
    def _demangle(self):
        names = set(self.funcs) | set(self.decls) | set(self.globals)
        names = [n for n in names if n.startswith('_Z')]
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        self.dem = dict(zip(names, r.stdout.split('\n')))
    def demangled(self, n): return self.dem.get(n, n)
    def _global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
        name, rest = unq(m.group(1)), m.group(2)
        ext = re.match(r'(?:external|extern_weak)\b', rest) is not None
        m2 = re.search(r'\b(constant|global|alias)\b\s*', rest)
        if m2.group(1) == 'alias':
            m3 = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\s*$', rest)
            self.globals[name] = ('alias', unq(m3.group(1))); return
        self.globals[name] = ('lazy', rest[m2.end():], ext, m2.group(1) == 'constant')
    def glob(self, name):
        g = self.globals.get(name)
        if g and g[0] == 'lazy':
            p = P(re.sub(r', (comdat|align|section).*$', '', g[1])) if not g[1].lstrip().startswith('c"') else P(g[1])
            t = p.type()
            v = None
            if not g[2] and p.peek()[0] != 'eof':
                v = p.value(t)
            g = self.globals[name] = ('g', t, v, g[3])
        return g
    def _func(self, ln, body):
        m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
        name = unq(m.group(1))
        pre = ln[len('define'):m.start()]
        pre = re.sub(r'\b(linkonce_odr|linkonce|weak_odr|weak|internal|private|dso_local|available_externally|unnamed_addr|local_unnamed_addr|hidden|protected|fastcc|external)\b', '', pre)
        pp = P(pre); pp.attrs(); rty = pp.type()
        p = P(ln[m.end() - 1:].split(' personality ')[0].rsplit('{', 1)[0])
        p.need('('); ps = []; sret = False
        while not p.eat(')'):
            if p.eat('...'): continue
            t = p.type(); st = p.i; p.attrs()
            if any(x[1] == 'sret' for x in p.t[st:p.i]): sret = True
            nm = None
            if p.peek()[0] == 'loc': nm = unq(p.next()[1])
            ps.append((t, nm)); p.eat(',')
        f = Func(name, rty, ps, body, sret)
        # unnamed entry label
        n = 0
        for i, (t, nm) in enumerate(ps):
            if nm is None:
                ps[i] = (t, str(n))
            if ps[i][1].isdigit(): n = int(ps[i][1]) + 1
        f.entry_label = str(n)
        self.funcs[name] = f
    # ---- layout
    def resolve(self, t):
        if t.k == 'named':
            r = self._ty.get(t.a)
            if r is None:
                s = self.types.get(t.a, 'opaque')
                r = self._ty[t.a] = P(s).type()
            return r
        return t
    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int': return min(16, max(1, (t.a + 7) // 8))
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'array': return self.align(t.a)
        if t.k == 'struct': return max([1] + [self.align(x) for x in t.a])
        if t.k == 'pstruct': return 1
        if t.k in ('x86_fp80', 'fp128'): return 16
        raise IRError('align %r' % t)
    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int': return (t.a + 7) // 8
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k in ('x86_fp80', 'fp128'): return 16
        if t.k == 'array': return t.n * self.size(t.a)
        if t.k == 'pstruct': return sum(self.size(x) for x in t.a)
        if t.k == 'struct':
            o = 0
            for x in t.a:
                a = self.align(x); o = (o + a - 1) // a * a + self.size(x)
            a = self.align(t); return (o + a - 1) // a * a
        raise IRError('size %r' % t)
    def offset(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t.a):
            if t.k == 'struct':
                a = self.align(x); o = (o + a - 1) // a * a
            if j == i: return o, x
            o += self.size(x)
        raise IRError('offset')
