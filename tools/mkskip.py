"""lists the wrappers that do not compile on the current tree in vc/skip.txt"""
import os, sys, importlib
os.environ['VP_SKIP'] = '1'
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + '/vc')
import build
names = set()
ts = {}
for m in ("suite_wrap", "suite_ct", "suite_latex", "suite_tree"):
    if not os.path.exists(R + '/vc/%s.py' % m): continue
    s = importlib.import_module(m)
    for p in ['P%02d' % i for i in range(1, 31)]:
        for t in s.tus(p, 'thorough'): ts.setdefault((m, t.name), t)
ts = {k: t for k, t in ts.items() if hasattr(t, 'compile')}; build.build(list(ts.values()))
for k, t in ts.items():
    if t.error: print(k, t.error)
    names |= {build.uid(l) for l, _ in t.dropped}
open(R + '/vc/skip.txt', 'w').write('\n'.join(sorted(names)) + '\n'); print(len(names))
