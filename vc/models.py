"""Models of the C++ runtime and standard library (the trusted external contracts).

  operator new/delete      fresh block / free exactly once
  std::vector<T>           sequence of given length (T = double, rt_expr, expression pointer)
  std::string, streams     opaque: contents are not tracked
  exceptions, dynamic_cast Itanium ABI semantics
  libm                     uninterpreted functions on the reals
"""
import re, z3
from fractions import Fraction
import logic as L
from exec import *
import text

OPAQUE_MANGLED = re.compile(r'^(_ZNK?St7__cxx1112basic_string|_ZNK?St7__cxx111[0-9]basic_\w*stringstream|_ZNK?St7__cxx1119basic_ostringstream|_ZNK?So|_ZNSi|_ZStls|_ZStrs|_ZNSt8ios_base|_ZNSt9basic_ios|_ZNKSt9basic_ios'
                            r'|_ZNSa|_ZSt(plI|4endl|5flush)|_ZNSt9exception|_ZNK?St15__new_allocator|_ZNSt6locale|_ZN9viennamathls|_ZNSt13runtime_error|_ZNSt12out_of_range|_ZSt3hex|_ZNSt11logic_error|_ZNKSt9exception|_ZStI|_ZSteqI|_ZStneI|_ZStL|_ZNSt11char_traits)')
MATH = {'exp', 'sin', 'cos', 'tan', 'fabs', 'sqrt', 'log', 'log10'}

def vec_method(d):
    """('double'|'rtexpr'|'eptr', method, rest) for a demangled std::vector member"""
    i = d.find('std::vector<')
    if i < 0: return None
    j = i + len('std::vector<'); dep = 1
    while j < len(d) and dep:
        dep += {'<': 1, '>': -1}.get(d[j], 0); j += 1
    if not d[j:].startswith('::'): return None
    if i > 0 and d[:i].strip() and ('(' in d[:i]): return None
    t = d[i + len('std::vector<'):j - 1]
    k = None
    if t.startswith('double,'): k = 'double'
    elif t.startswith('viennamath::rt_expr<'): k = 'rtexpr'
    elif re.match(r'viennamath::rt_expression_interface<double> const\*', t): k = 'eptr'
    elif re.match(r'viennamath::rt_expression_interface<double>\*', t): k = 'eptr'
    elif re.match(r'viennamath::rt_latex_processor_interface<.*>\*, ', t): k = 'raw'
    rest = d[j + 2:]
    m = re.match(r'(operator\[\]|operator=+|~?[A-Za-z_]\w*)', rest)
    return (k, m.group(1) if m else rest, rest)

class Models:
    def __init__(self): self.x = None
    def ret(self, st, v=None): return [Outcome(st, 'ret', v)]
    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, st, n, args, rty):
        x = self.x
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            return [Outcome(s, 'ret') for s in x.memcpy(st, args[0], args[1], args[2])]
        if n.startswith('llvm.memset'):
            b = x.deref(st, args[0], 'memset')
            if b is None: return []
            if args[1] != 0 or args[0].off != 0: 
                if args[1] == 0 and isinstance(args[2], int):
                    b = st.w(b.id)
                    for o in range(0, args[2], 8): b.cells[args[0].off + o] = (8, 0)
                    return self.ret(st)
                raise Unsupported('memset')
            b = st.w(b.id); b.cells = {}; b.zero = True
            return self.ret(st)
        if n.startswith('llvm.eh.typeid.for'):
            a = args[0]
            return self.ret(st, x.tid(a.b[1] if isinstance(a, Ptr) and a.b else None))
        if n.startswith('llvm.fabs'):
            return self.ret(st, L.LIBM['fabs'](x.real(args[0])))
        m = re.match(r'llvm\.(exp|sin|cos|sqrt|log|log10)\.f64', n)
        if m: return self.ret(st, L.LIBM[m.group(1)](x.real(args[0])))
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma.'):
            return self.ret(st, x.fbin('fadd', x.fbin('fmul', args[0], args[1]), args[2]))
        if n.startswith(('llvm.stacksave', 'llvm.stackrestore', 'llvm.va')): return self.ret(st, Opaque('stack'))
        if n.startswith('llvm.trap'): return [Outcome(st, 'abort', 'trap')]
        m = re.match(r'llvm\.(umul|uadd)\.with\.overflow\.i64', n)
        if m and isinstance(args[0], int) and isinstance(args[1], int):
            r = args[0] * args[1] if m.group(1) == 'umul' else args[0] + args[1]
            return self.ret(st, (r & MASK[64], int(r > MASK[64])))
        raise Unsupported('intrinsic %s' % n)
    # ------------------------------------------------------------ library
    def try_model(self, st, n, args, rty):
        x = self.x
        if x.hints.get('text'):
            r = text.model(self, st, n, args, rty)
            if r is not None: x.modelled.add('text of strings, streams and maps'); return r
        if n in MATH:
            a = args[0]
            if n == 'fabs' and isinstance(a, Fraction): return self.ret(st, abs(a))
            return self.ret(st, L.LIBM[n](x.real(a)))
        if n == 'pow': return self.ret(st, L.POW(x.real(args[0]), x.real(args[1])))
        if n in ('_Znwm', '_Znam'):
            if not isinstance(args[0], int): raise Unsupported('allocation of symbolic size')
            b = x.new_block(st, 'heap', args[0], 'new(%d)' % args[0]); b.owned = True
            return self.ret(st, Ptr(b.id, 0))
        if n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'): return self.free(st, args[0])
        if n == '__cxa_allocate_exception':
            b = x.new_block(st, 'heap', args[0], 'exception'); return self.ret(st, Ptr(b.id, 0))
        if n == '__cxa_throw':
            ti = args[1]
            return [Outcome(st, 'throw', (ti.b[1] if isinstance(ti, Ptr) and ti.b else '?', args[0]))]
        if n == '__cxa_rethrow': return [Outcome(st, 'throw', st.ghost['exc'])]
        if n in ('__cxa_begin_catch',): return self.ret(st, args[0])
        if n in ('__cxa_end_catch', '__cxa_free_exception', '__cxa_atexit', '__cxa_guard_abort'): return self.ret(st, 0)
        if n == '__cxa_guard_release': return [Outcome(s2, 'ret', 0) for s2 in x.guard_release(st, args[0])]
        if n == '__cxa_guard_acquire': return self.ret(st, 1)
        if n in ('__assert_fail', '__clang_call_terminate', 'abort', '_ZSt9terminatev', '__cxa_pure_virtual'):
            return [Outcome(st, 'abort', n)]
        if n.startswith('_ZSt') and '__throw_' in n:
            return [Outcome(st, 'throw', ('?std', Opaque('exc')))]
        if n == '_ZNK2PV4sizeEv': return self.ret(st, L.envsize(st.blocks[args[0].b].env))
        if n == '_ZNK2PVixEm':
            e = st.blocks[args[0].b].env; k = x.bv(args[1])
            x.oblige(st, ('P02', 'P03', 'P12'), 'point is read within its bounds', z3.ULT(k, L.envsize(e)))
            x.assume(st, z3.ULT(k, L.envsize(e)))
            return self.ret(st, L.envget(e, k))
        if n == '__dynamic_cast': return x.con.dynamic_cast(st, args[0], args[1], args[2])
        if n in ('strlen',): return self.ret(st, Opaque('strlen'))
        if OPAQUE_MANGLED.match(n):
            d = x.m.demangled(n)
            if n.startswith(('_ZNSt6vector', '_ZNKSt6vector')): pass
            else:
                x.modelled.add('opaque string/stream/allocator')
                if rty.k == 'void': return self.ret(st)
                if rty.k == 'ptr': return self.ret(st, args[0] if args and isinstance(args[0], Ptr) else Opaque(d[:30]))
                return self.ret(st, Opaque(d[:40]))
        if n.startswith(('_ZNSt6vectorI', '_ZNKSt6vectorI')):
            vm = vec_method(x.m.demangled(n))
            if vm and vm[0]: 
                x.modelled.add('std::vector<%s>::%s' % vm[:2])
                return self.vector(st, vm, args, rty, n)
            raise Unsupported('vector method %s' % x.m.demangled(n)[:120])
        return None
    def free(self, st, p):
        x = self.x
        if not isinstance(p, Ptr): raise Unsupported('delete of %r' % (p,))
        if p.b is None: return self.ret(st)
        b = st.blocks[p.b]
        if b.freed:
            x.oblige(st, x.safety_props, 'no double free', False); return []
        if b.kind not in ('heap', 'abs') or p.off != 0 or b.ro:
            x.oblige(st, x.safety_props, 'only owned heap objects are freed', False); return []
        st.w(b.id).freed = True
        return self.ret(st)
    # ------------------------------------------------------------ vectors
    def vec_obj(self, st, p):
        """data block of the std::vector object at p"""
        x = self.x
        b = x.deref(st, p, 'vector')
        if b is None: return None
        if b.kind == 'abs' and p.off not in b.cells:
            raise Unsupported('vector inside unexpanded object')
        c = b.cells.get(p.off)
        if c is None or not isinstance(c[1], VecVal): raise Unsupported('not a vector at %r (%r)' % (p, c))
        return st.blocks[c[1].b]
    def new_vec(self, st, ek, n, name='vec'):
        b = self.x.new_block(st, 'vec', None, name); b.ek = ek; b.n = n; b.owned = True
        return b
    def set_obj(self, st, p, b):
        ob = self.x.deref(st, p, 'vector object')
        ob = st.w(ob.id)
        for o in [o for o in ob.cells if p.off <= o < p.off + 24]: del ob.cells[o]
        ob.cells[p.off] = (24, VecVal(b.id))
    def vector(self, st, vm, args, rty, n):
        x = self.x; ek, m, rest = vm
        this = args[0]
        if m == 'vector':
            ctor = rest
            if len(args) == 1 or (len(args) == 2 and 'allocator' in rest.split('(')[1] and 'std::vector<' not in rest.split('(')[1].split('std::allocator')[0] and 'unsigned long' not in rest):
                b = self.new_vec(st, ek, 0)
            elif re.match(r'vector\(unsigned long', rest):
                b = self.new_vec(st, ek, args[1])
                if len(args) == 4 or (len(args) == 3 and 'const&, std::allocator' in rest.replace('unsigned long, ', '', 1) and not rest.startswith('vector(unsigned long, std::allocator')):
                    if ek != 'double': raise Unsupported('vector fill constructor')
                    for s2, v in x.load(st, args[2], Ty('double')): b.base = lambda k, v=v: x.real(v)
                elif ek == 'double': b.base = lambda k: L.rv(0)
                else: b.null = True
            elif 'std::vector<' in rest:
                src = self.vec_obj(st, args[1])
                if src is None: return []
                if '&&' in rest:
                    if src.ro: raise Unsupported('move from a borrowed vector')
                    b = src; self.set_obj(st, args[1], self.new_vec(st, ek, 0))
                else: b = self.copy_vec(st, src)
            else: raise Unsupported('vector constructor %s' % rest[:80])
            self.set_obj(st, this, b)
            return self.ret(st)
        b = self.vec_obj(st, this)
        if b is None: return []
        if b.freed:
            x.oblige(st, x.safety_props, 'no use of a destroyed vector', False); return []
        if m == '~vector': return self.free_vec(st, b)
        if m == 'size': return self.ret(st, b.n)
        if m == 'empty': return self.ret(st, x.icmp(st, 'eq', Ty('int', 64), b.n, 0))
        if m == 'operator[]': return self.ret(st, Ptr(b.id, 0, args[1]))
        if m == 'at':
            c = x.icmp(st, 'ult', Ty('int', 64), args[1], b.n); out = []
            for s2, tv in x.branch(st, x.cond(c)):
                out.append(Outcome(s2, 'ret', Ptr(b.id, 0, args[1])) if tv else Outcome(s2, 'throw', ('?std', Opaque('exc'))))
            return out
        if m in ('begin', 'data', 'cbegin', 'front'): return self.ret(st, Ptr(b.id, 0, 0))
        if m in ('end', 'cend'): return self.ret(st, Ptr(b.id, 0, b.n))
        if m == 'back': return self.ret(st, Ptr(b.id, 0, x.binop('sub', 64, b.n, 1)))
        if m == 'reserve': return self.ret(st)
        if m == 'capacity': return self.ret(st, b.n)
        if m == 'push_back':
            bb = st.w(b.id)
            if ek in ('double', 'eptr', 'raw'):
                out = []
                for s2, v in x.load(st, args[1], Ty('double') if ek == 'double' else Ty('ptr')):
                    b2 = s2.w(b.id); b2.over = b2.over + ((b2.n, v),); b2.n = x.binop('add', 64, b2.n, 1); b2.env = None
                    out.append(Outcome(s2, 'ret'))
                return out
            out = []
            for s2, v in x.load(st, args[1], Ty('ptr')):
                if v == NULL: nv = NULL
                else: nv = x.con.fresh_tree(s2, x.con.fold(s2, v))
                b2 = s2.w(b.id); b2.over = b2.over + ((b2.n, nv),); b2.n = x.binop('add', 64, b2.n, 1); b2.env = None
                out.append(Outcome(s2, 'ret'))
            return out
        if m == 'resize' and len(args) == 2 and isinstance(b.n, int) and b.n == 0:
            bb = st.w(b.id); bb.n = args[1]; bb.over = (); bb.env = None
            if ek == 'double': bb.base = lambda k: L.rv(0)
            else: bb.base = None; bb.null = True
            return self.ret(st)
        if m == 'operator=':
            src = self.vec_obj(st, args[1])
            if src is None: return []
            if '&&' in rest:
                if src.ro: raise Unsupported('move from a borrowed vector')
                if src.id == b.id: raise Unsupported('self-move of a vector')
                self.set_obj(st, args[1], self.new_vec(st, ek, 0)); nb = src
            else: nb = self.copy_vec(st, src)
            r = self.free_vec(st, b)
            if not r: return []
            self.set_obj(st, this, nb)
            return self.ret(st, this)
        if m == 'swap':
            src = self.vec_obj(st, args[1])
            if src is None: return []
            if src.ro or b.ro: raise Unsupported('swap with a borrowed vector')
            self.set_obj(st, this, src); self.set_obj(st, args[1], b); return self.ret(st)
        if m == 'clear':
            if b.ro: x.oblige(st, x.safety_props, 'borrowed vector is not destroyed', False); return []
            r = self.free_vec(st, b)
            if not r: return []
            self.set_obj(st, this, self.new_vec(st, ek, 0)); return self.ret(st)
        raise Unsupported('vector method %s' % rest[:80])
    def copy_vec(self, st, src):
        x = self.x
        nb = self.new_vec(st, src.ek, src.n)
        nb.base, nb.null, nb.env = src.base, src.null, src.env
        if src.ek == 'rtexpr':
            if src.over or src.base is not None:
                nb.over = tuple((k, NULL if v == NULL else x.con.fresh_tree(st, x.con.fold(st, v))) for k, v in src.over)
        else: nb.over = src.over
        return nb
    def free_vec(self, st, b):
        x = self.x
        if b.freed: x.oblige(st, x.safety_props, 'no double destruction of a vector', False); return []
        if b.ro: x.oblige(st, x.safety_props, 'borrowed vector is not destroyed', False); return []
        if b.ek == 'rtexpr':
            for k, v in b.over:
                if isinstance(v, Ptr) and v.b is not None:
                    if not x.con.deep_free(st, v): return []
        bb = st.w(b.id); bb.freed = True
        return self.ret(st)
    def same_idx(self, a, b):
        return same(a, b) or (isinstance(a, int) and isinstance(b, int) and a == b)
    def vec_elem(self, st, b, k):
        """logical element at index term k (Real or Expr), k within bounds and non-null"""
        x = self.x; kk = x.bv(k)
        if b.base is not None: r = b.base(kk)
        else:                                  # null components have an unspecified value
            srt, gt = {'double': (L.EnvS, L.envget), 'rtexpr': (L.VecS, L.vget), 'eptr': (L.ListS, L.pget)}[b.ek]
            r = gt(z3.Const('unset!%d' % b.id, srt), kk)
        for i, v in b.over:
            if b.ek == 'double': t = x.real(v)
            elif v == NULL: t = None
            else: t = x.con.fold(st, v)
            if t is None: continue
            if self.same_idx(i, k): r = t; continue
            c = z3.simplify(x.bv(i) == kk)
            if z3.is_false(c): continue
            r = t if r is None or z3.is_true(c) else z3.If(c, t, r)
        if r is None:
            raise Unsupported('element of an unset vector')
        return r
    def vec_null(self, st, b, k):
        x = self.x; kk = x.bv(k)
        def isn(n): return z3.BoolVal(bool(n)) if isinstance(n, bool) or n is None else n(kk)
        r = isn(b.null)
        for i, v in b.over:
            r = z3.If(x.bv(i) == kk, z3.BoolVal(isinstance(v, Ptr) and v.b is None), r)
        return z3.simplify(r)
    def bounds(self, st, b, p, what):
        x = self.x
        c = x.icmp(st, 'ult', Ty('int', 64), p.idx, b.n)
        g = x.cond(c)
        if g is True: return True
        ok = x.oblige(st, ('P02', 'P12') if b.ek == 'double' else x.safety_props, 'vector index within bounds (%s)' % what, g)
        if g is False: return False
        x.assume(st, g)
        return True
    def vec_load(self, st, b, p, t):
        x = self.x
        if p.off != 0 or p.idx is None: raise Unsupported('vector data access at +%r' % p.off)
        if b.freed: x.oblige(st, x.safety_props, 'no use after free (vector data)', False); return []
        if not self.bounds(st, b, p, 'read'): return []
        if b.ek == 'double':
            for i, v in reversed(b.over):
                if self.same_idx(i, p.idx): return [(st, v)]
                if not z3.is_false(z3.simplify(x.bv(i) == x.bv(p.idx))): break
            return [(st, self.vec_elem(st, b, p.idx))]
        return self.ptr_elem(st, b, p.idx)
    def ptr_elem(self, st, b, k):
        x = self.x; work = [(st, len(b.over))]; out = []
        b0 = b
        st1 = st
        for j in range(len(b.over) - 1, -1, -1):
            i, v = b.over[j]
            if self.same_idx(i, k): return out + [(st1, v)]
            c = z3.simplify(x.bv(i) == x.bv(k))
            nxt = None
            for s2, tv in x.branch(st1, True if z3.is_true(c) else False if z3.is_false(c) else c):
                if tv: out.append((s2, v))
                else: nxt = s2
            if nxt is None: return out
            st1 = nxt
        # base element
        if b.ek == 'raw': raise Unsupported('element of a pointer vector')
        nl = b.null
        if nl is True: return out + [(st1, NULL)]
        cands = [(st1, False)]
        if callable(nl): cands = x.branch(st1, z3.simplify(nl(x.bv(k))))
        for s2, isnull in cands:
            if isnull: out.append((s2, NULL)); continue
            e = x.new_block(s2, 'abs', None, 'element'); e.root = 'E'; e.term = b.base(x.bv(k)); e.ro = b.ro or b.ek == 'eptr'
            e.owned = not e.ro
            if b.ek != 'eptr' or True:
                bb = s2.w(b.id); bb.over = bb.over + ((k, Ptr(e.id, 0)),)
            out.append((s2, Ptr(e.id, 0)))
        return out
    def vec_store(self, st, b, p, v, t):
        x = self.x
        if p.off != 0 or p.idx is None: raise Unsupported('vector data store at +%r' % p.off)
        if b.freed: x.oblige(st, x.safety_props, 'no write after free (vector data)', False); return []
        if not self.bounds(st, b, p, 'write'): return []
        if b.ro:
            x.oblige(st, x.safety_props, 'borrowed vector is not modified', False); return []
        bb = st.w(b.id)
        bb.over = tuple((i, w) for i, w in bb.over if not self.same_idx(i, p.idx)) + ((p.idx, v),)
        bb.env = None
        return [st]
