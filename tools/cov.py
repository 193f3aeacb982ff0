"""VP_COV=DIR check.py ... for every property, then: cov.py DIR -> functions of /repo no unit executes"""
import sys, os, glob, pickle, re, subprocess, collections
d = sys.argv[1]; al = set(); ex = set()
for f in glob.glob(d + '/all-*'): al |= pickle.load(open(f, 'rb'))
for f in glob.glob(d + '/ex-*'): ex |= pickle.load(open(f, 'rb'))
R = '/repo/'
al = {(f, l) for f, l in al if f and R in f}; ex = {(f, l) for f, l in ex if f and R in f}
al |= ex
by = collections.defaultdict(set)
for f, l in al - ex: by[f].add(l)
tot = collections.Counter(f for f, l in al)
if '-l' in sys.argv:
    for f in sorted(by):
        src = open(f).read().split('\n')
        print('==', f.replace(R, ''), len(by[f]), '/', tot[f])
        for l in sorted(by[f]): print('   ', l, src[l - 1].strip()[:110])
else:
    for f in sorted(tot): print(f.replace(R, ''), tot[f] - len(by[f]), '/', tot[f])
