"""development aid (VP_COV=directory): source lines of /repo executed symbolically"""
import os, re, pickle, exec as X
DIR = os.environ.get('VP_COV')
def locs(m):
    if getattr(m, '_locs', None) is None:
        md = {}
        for l in m.meta:
            g = re.match(r'!(\d+) = (?:distinct )?!(\w+)\((.*)\)', l)
            if g: md[g.group(1)] = (g.group(2), dict(re.findall(r'(\w+): (?:!(\d+)|"[^"]*"|\d+)', g.group(3))), g.group(3))
        def fld(n, k):
            g = re.search(r'\b%s: (?:!(\d+)|"([^"]*)"|(\d+))' % k, md[n][2]); return g and next(x for x in g.groups() if x is not None)
        def file(sc):
            f = fld(sc, 'file')
            return fld(f, 'filename') if f else None
        res = {}
        for n in md:
            if md[n][0] == 'DILocation': res[n] = (file(fld(n, 'scope')), int(fld(n, 'line')))
        m._locs = res
        out = set()
        for f in m.funcs.values():
            for l in f.lines:
                g = re.search(r'!dbg !(\d+)', l)
                if g and g.group(1) in res: out.add(res[g.group(1)])
        pickle.dump(out, open(os.path.join(DIR, 'all-%d-%d.pkl' % (os.getpid(), id(m))), 'wb'))
    return m._locs
def dump(m, name):
    L = locs(m); out = set()
    for fn, lab in X.COV:
        for ins in m.funcs[fn].blocks[lab] if fn in m.funcs else ():
            g = re.search(r'!dbg !(\d+)', ins.line)
            if g and g.group(1) in L: out.add(L[g.group(1)])
    X.COV.clear()
    pickle.dump(out, open(os.path.join(DIR, 'ex-%s-%d.pkl' % (re.sub(r'\W+', '_', name)[:60], abs(hash(name)) % 10**9)), 'wb'))
