"""Compile-time part: the class templates of /repo as rewrite rules.

The rules are extracted on every run from clang's own pretty print of its AST
(-ast-print: comments, macros and layout are gone, names are clang's), restricted
to namespace viennamath.  A partial specialisation is a rule `pattern -> members`;
it applies exactly where C++ selects it: its pattern matches and every other
matching specialisation is strictly more general.  Nothing else is interpreted:
a construct outside the subset makes the rule unsupported (undecided)."""
import re, subprocess, os
NS = ('viennamath', 'result_of', 'detail')
class Bad(Exception): pass          # outside the supported subset
class CtError(Exception): pass      # the instantiation is a compile error

# ---------------------------------------------------------------- lexer/parser
TOK = re.compile(r'\s*(?:(\d+)([uUlL]*)|([A-Za-z_]\w*)|(::|&&|\|\||==|!=|<=|>=|->|\+\+|--|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|.))', re.S)
def lex(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: break
        i = m.end()
        if m.group(1) is not None: out.append(('n', int(m.group(1)), m.group(2).lower()))
        elif m.group(3): out.append(('i', m.group(3)))
        elif m.group(4): out.append(('o', m.group(4)))
    return out
class Rule:
    def __init__(self): self.params = []; self.args = None; self.mem = {}; self.order = []; self.name = ''; self.n = 0; self.why = None; self.bases = []
    def label(self): return '%s#%d<%s>' % (self.name, self.n, ', '.join(show(a) for a in self.args)) if self.args is not None else '%s#0 (primary)' % self.name
class Klass:
    def __init__(self, name): self.name = name; self.prim = None; self.specs = []; self.defaults = {}; self.params = None; self.ns = set(); self.broken = False
def show(a):
    k = a[0]
    if k == 'name': return a[1]
    if k == 'num': return str(a[1])
    if k == 'app': return a[1].replace('ct_', '').replace('_expr', '').replace('op_', '') + '<' + ','.join(show(x) for x in a[2]) + '>'
    if k == 'mem': return show(a[1]) + '::' + a[2]
    if k == 'bin': return '(%s %s %s)' % (show(a[2]), a[1], show(a[3]))
    if k == 'un': return a[1] + show(a[2])
    return k
KEYT = {'int', 'long', 'bool', 'unsigned', 'double', 'short', 'signed', 'char', 'float'}
class Parser:
    def __init__(self, text):
        text = re.sub(r'(?m)^Printing .*:$', '', text)
        self.t = lex(text); self.i = 0; self.classes = {}; self.funcs = []; self.ns = []
        self.tmpl = set(re.findall(r'template <[^{;]*?>\s+(?:struct|class)\s+(\w+)', text)) | set(re.findall(r'(?:struct|class) (\w+)<', text)) | {'enable_if'}
    def pk(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else ('e', '')
    def nx(self): x = self.pk(); self.i += 1; return x
    def isop(self, o, k=0): x = self.pk(k); return x[0] == 'o' and x[1] == o
    def isid(self, o, k=0): x = self.pk(k); return x[0] == 'i' and x[1] == o
    def eat(self, o):
        x = self.nx()
        if x[1] != o: raise Bad('expected %s, found %s' % (o, x[1]))
    def skipbal(self):
        """skip one balanced bracket group starting here"""
        d = 0
        while self.i < len(self.t):
            x = self.nx()
            if x[0] == 'o':
                if x[1] in '([{': d += 1
                elif x[1] in ')]}':
                    d -= 1
                    if d == 0: return
    def skipdecl(self):
        while self.i < len(self.t):
            if self.isop(';'): self.i += 1; return
            if self.isop('('): self.skipbal(); continue
            if self.isop('{'):
                self.skipbal()
                if self.isop(';'): self.i += 1
                return
            if self.isop('}'): return
            self.i += 1
    def top(self):
        while self.i < len(self.t):
            if self.isop('}'):
                self.i += 1
                if self.ns: self.ns.pop()
                continue
            if self.isid('namespace') and self.pk(1)[0] == 'i' and self.isop('{', 2):
                self.ns.append(self.pk(1)[1]); self.i += 3; continue
            if self.isop(';'): self.i += 1; continue
            if self.isid('template') or self.isid('struct') or self.isid('class'):
                j = self.i
                self.cur = None
                try: self.template(); continue
                except Bad:
                    if self.cur: self.classes.setdefault(self.cur, Klass(self.cur)).broken = True       # a rule that could not be read
                    self.i = j
            self.skipdecl()
        return self
    def params(self):
        ps = []; self.eat('<')
        while not self.isop('>'):
            x = self.nx()
            if x[0] == 'i' and x[1] in ('typename', 'class'):
                nm = self.nx()[1] if self.pk()[0] == 'i' else ''; kind = 'T'
            else:
                if x[0] != 'i': raise Bad('template parameter')
                kind = x[1]
                while self.pk()[0] == 'i' and self.pk()[1] in KEYT: kind += ' ' + self.nx()[1]
                nm = self.nx()[1] if self.pk()[0] == 'i' else ''
            df = None
            if self.isop('='): self.i += 1; df = self.expr(in_targ=True)
            ps.append((kind, nm or '_%d' % len(ps), df))
            if self.isop(','): self.i += 1
            elif not self.isop('>'): raise Bad('template parameter list')
        self.eat('>'); return ps
    def template(self):
        ps = []
        tm = self.isid('template')
        if tm:
            self.i += 1
            if not self.isop('<'): raise Bad('explicit instantiation')
            ps = self.params()
        if self.isid('struct') or self.isid('class'):
            self.i += 1; name = self.nx()
            if name[0] != 'i': raise Bad('class name')
            name = name[1]; args = None; self.cur = name
            if self.isop('<'): args = self.targs()
            k = self.classes.setdefault(name, Klass(name)); k.ns.add(tuple(self.ns))
            if args is None:
                if k.params is None: k.params = ps
                for n, p in enumerate(ps):
                    if p[2] is not None: k.defaults[n] = (p[2], ps)
            bases = []
            if self.isop(':'):
                self.i += 1; j = self.i
                try:
                    while True:
                        while self.pk()[0] == 'i' and self.pk()[1] in ('public', 'virtual', 'private', 'protected'): self.i += 1
                        bases.append(self.typ())
                        if not self.isop(','): break
                        self.i += 1
                    if not self.isop('{'): raise Bad('base')
                except Bad:
                    self.i = j; bases = [None]
                    while not self.isop('{') and not self.isop(';'): self.i += 1
            if self.isop(';'): self.i += 1; return
            r = Rule(); r.params = ps; r.args = args; r.name = name; r.bases = bases
            self.eat('{'); self.members(r)
            if args is None: k.prim = r; k.params = ps
            else: r.n = len(k.specs) + 1; k.specs.append(r)
            if self.isop(';'): self.i += 1
            return
        if not tm: raise Bad('not a template')
        # function template: [type] name ( params ) [const] { return X; }
        j = self.i
        self.skip_spec()
        ret = self.typ()
        nm = self.nx()
        if nm[0] != 'i' or not self.isop('('): raise Bad('function')
        self.i += 1; at = []
        while not self.isop(')'):
            t = self.typ()
            if self.pk()[0] == 'i': self.i += 1
            at.append(t)
            if self.isop(','): self.i += 1
        self.eat(')')
        body = None
        if self.isid('const'): self.i += 1
        if self.isop(';'): self.i += 1
        elif self.isop('{'):
            k = self.i
            try:
                self.i += 1; body = self.stmts()
            except Bad: self.i = k; self.skipbal(); body = ('?',)
        self.funcs.append(dict(name=nm[1], params=ps, args=at, ret=ret, body=body, ns=tuple(self.ns)))
    def stmts(self):
        """{ typedefs and default-constructed objects; return X; }  with the local names replaced by what they stand for"""
        loc = {}
        def sub(e):
            if isinstance(e, tuple):
                if len(e) == 2 and e[0] == 'name' and e[1] in loc: return loc[e[1]]
                return tuple(sub(a) for a in e)
            return [sub(a) for a in e] if isinstance(e, list) else e
        while not self.isid('return'):
            if self.isop('('):                                   # (void)argument;
                self.i += 1
                if not self.isid('void'): raise Bad('body')
                self.i += 1; self.eat(')'); self.nx(); self.eat(';'); continue
            if self.isid('typedef'): self.i += 1; t = sub(self.typ()); n = self.nx()
            elif self.isid('using') and self.isop('=', 2): self.i += 1; n = self.nx(); self.eat('='); t = sub(self.typ())
            else:
                t = sub(self.typ()); n = self.nx()
                if self.isop('='):
                    self.i += 1
                    if sub(self.expr(call=True)) != ('call', t): raise Bad('body')
                t = ('call', t)
            if n[0] != 'i' or n[1] in loc: raise Bad('body')
            self.eat(';'); loc[n[1]] = t
        self.i += 1; e = sub(self.expr(call=True)); self.eat(';'); self.eat('}')
        return e
    def skip_spec(self):
        while self.pk()[0] == 'i' and self.pk()[1] in ('static', 'inline', 'constexpr', 'const', 'explicit', 'friend', 'virtual'): self.i += 1
    def typ(self):
        """a type with const/&/* decorations; decorations are recorded for * only"""
        self.skip_spec(); t = self.expr(in_targ=True, prec=9)
        while True:
            if self.isop('&') or self.isid('const') or self.isop('&&'): self.i += 1; continue
            if self.isop('*'): self.i += 1; t = ('ptr', t); continue
            return t
    def members(self, r):
        while not self.isop('}'):
            j = self.i
            try: self.member(r)
            except Bad as e:
                self.i = j; nm = None
                if self.isid('static') or self.isid('typedef') or self.isid('enum') or self.isid('using'):
                    # remember that a data/type member could not be read
                    k = self.i
                    while not self.isop(';') and not self.isop('{') and self.i < len(self.t):
                        if self.isop('='): nm = self.pk(-1)[1]; break
                        self.i += 1
                    if nm is None: nm = self.pk(-1)[1]
                    self.i = k
                self.skipdecl()
                if self.i == j: self.i += 1
                if nm and re.match(r'\w+$', nm): r.mem[nm] = ('bad', str(e)); r.order.append(nm)
        self.i += 1
    def member(self, r):
        x = self.pk()
        if x[0] == 'i' and x[1] in ('public', 'private', 'protected') and self.isop(':', 1): self.i += 2; return
        if self.isid('typedef'):
            self.i += 1; t = self.typ(); n = self.nx()
            if n[0] != 'i': raise Bad('typedef')
            self.eat(';'); r.mem[n[1]] = ('type', t); r.order.append(n[1]); return
        if self.isid('using') and self.isop('=', 2):
            self.i += 1; n = self.nx()[1]; self.eat('='); t = self.typ(); self.eat(';'); r.mem[n] = ('type', t); r.order.append(n); return
        if self.isid('enum'):
            self.i += 1
            if self.pk()[0] == 'i': self.i += 1
            if self.isop(':'): raise Bad('enum base')
            self.eat('{'); last = None
            while not self.isop('}'):
                n = self.nx()[1]
                if self.isop('='): self.i += 1; e = self.expr(in_targ=False, comma=False)
                else: e = ('num', 0, 'int') if last is None else ('bin', '+', last, ('num', 1, 'int'))
                last = ('name', n); r.mem[n] = ('const', 'enum', e); r.order.append(n)
                if self.isop(','): self.i += 1
            self.eat('}'); self.eat(';'); return
        if self.isid('static'):
            self.i += 1; ty = []
            while self.pk()[0] == 'i' and (self.pk()[1] in KEYT or self.pk()[1] in ('const', 'constexpr', 'id_type', 'size_t')):
                w = self.nx()[1]
                if w not in ('const', 'constexpr'): ty.append(w)
            n = self.nx()
            if not ty or n[0] != 'i' or not self.isop('='): raise Bad('static member')
            self.i += 1; e = self.expr(); self.eat(';'); r.mem[n[1]] = ('const', ' '.join(ty), e); r.order.append(n[1]); return
        # struct/functions/ctors: not part of the rules
        self.skipdecl()
        if self.i == 0: raise Bad('member')
    # ---- expressions and types
    PREC = {'||': 1, '&&': 2, '==': 4, '!=': 4, '<': 5, '>': 5, '<=': 5, '>=': 5, '+': 6, '-': 6, '*': 7, '/': 7, '%': 7}
    def targs(self):
        self.eat('<'); out = []
        while not self.isop('>'):
            out.append(self.targ())
            if self.isop(','): self.i += 1
            elif not self.isop('>'): raise Bad('template arguments')
        self.eat('>'); return out
    def targ(self):
        self.skip_spec(); t = self.expr(in_targ=True)
        while self.isop('&') or self.isid('const'): self.i += 1
        return t
    def expr(self, in_targ=False, prec=0, call=False, comma=False):
        a = self.unary(in_targ, call)
        while True:
            x = self.pk()
            if x[0] != 'o' or x[1] not in self.PREC: break
            if in_targ and x[1] in ('>', '>='): break
            p = self.PREC[x[1]]
            if p <= prec: break
            self.i += 1; b = self.expr(in_targ, p, call); a = ('bin', x[1], a, b)
        if self.isop('?') and prec == 0:
            self.i += 1; b = self.expr(in_targ, 0, call); self.eat(':'); c = self.expr(in_targ, 0, call); a = ('cond', a, b, c)
        return a
    def unary(self, in_targ, call):
        if self.isop('-') or self.isop('!') or self.isop('+'):
            o = self.nx()[1]; e = self.unary(in_targ, call)
            if o == '-' and e[0] == 'num': return ('num', -e[1], e[2])
            return e if o == '+' else ('un', o, e)
        if self.isop('('):
            if self.pk(1)[0] == 'i' and self.pk(1)[1] in KEYT and self.isop(')', 2):
                ty = self.pk(1)[1]; self.i += 3; return ('cast', ty, self.unary(in_targ, call))
            self.i += 1; e = self.expr(); self.eat(')'); return e
        x = self.nx()
        if x[0] == 'n': return ('num', x[1], 'long' if 'l' in x[2] else 'int')
        if x[0] != 'i': raise Bad('expression at %s' % (x[1],))
        w = x[1]
        if w in ('true', 'false'): return ('num', int(w == 'true'), 'bool')
        if w == 'static_cast':
            self.eat('<'); ty = [];
            while not self.isop('>'): ty.append(self.nx()[1])
            self.eat('>'); self.eat('('); e = self.expr(); self.eat(')'); return ('cast', ' '.join(ty), e)
        if w in KEYT:
            while self.pk()[0] == 'i' and self.pk()[1] in KEYT: w += ' ' + self.nx()[1]
            if self.isop('('): self.i += 1; e = self.expr(); self.eat(')'); return ('cast', w, e)
            return ('name', w)
        if w == 'typename': x = self.nx(); w = x[1]
        if w in ('sizeof', 'decltype', 'noexcept', 'operator', 'new', 'return', 'this'): raise Bad(w)
        cur = None
        while True:
            if w == 'template': w = self.nx()[1]
            if self.isop('<') and w in self.tmpl: comp = ('app', w, self.targs())
            else: comp = ('name', w)
            if cur is None or cur == 'ns': cur = comp
            else:
                if comp[0] == 'app': raise Bad('member template')
                cur = ('mem', cur, w)
            if self.isop('::'):
                self.i += 1
                if cur[0] == 'name' and (cur[1] in NS or cur[1] == 'std'): cur = 'ns'
                n = self.nx()
                if n[0] != 'i': raise Bad('qualified name')
                w = n[1]; continue
            break
        if call:
            while self.isop('(') and self.isop(')', 1): self.i += 2; cur = ('call', cur)
        return cur

def inherit(P):
    """members a rule inherits become members that name the base's"""
    names = {}
    def base_members(b, seen=()):
        if b is None: return None
        if b[0] != 'app' or b[1] not in P.classes or b[1] in seen: return None if b[0] != 'app' or b[1] not in seen else {}
        k = P.classes[b[1]]; out = {}
        for r in k.specs + ([k.prim] if k.prim else []):
            for q in r.bases:
                m = base_members(q, seen + (b[1],))
                if m is None: return None
                out.update(m)
            for n, v in r.mem.items():
                kd = ('const', v[1]) if v[0] == 'const' else (v[0],)
                if out.get(n, kd) != kd: kd = ('bad',)
                out[n] = kd
        return out
    todo = []
    for k in P.classes.values():
        for r in k.specs + ([k.prim] if k.prim else []):
            for b in r.bases:
                m = base_members(b)
                if m is None: m = {n: ('bad',) for n in ('type', 'value', 'result_type')}
                for n, kd in m.items():
                    if n not in r.mem: todo.append((r, n, ('bad', 'inherited') if kd[0] == 'bad' else ('type', ('mem', b, n)) if kd[0] == 'type' else ('const', kd[1], ('mem', b, n))))
    for r, n, v in todo:
        r.mem[n] = ('bad', 'inherited twice') if n in r.mem else v; r.order.append(n)
    return P
def extract(repo, clang, headers):
    src = ''.join('#include "%s"\n' % h for h in headers)
    p = subprocess.run([clang, '-std=gnu++17', '-w', '-I' + repo, '-x', 'c++', '-fsyntax-only', '-Xclang', '-ast-print', '-Xclang', '-ast-dump-filter=viennamath', '-'],
                       input=src, capture_output=True, text=True)
    if p.returncode: raise Bad('does not compile: ' + p.stderr[:600])
    return inherit(Parser(p.stdout).top())
