"""adds the program lines of the P03/P22 harness the library rejects on the current tree to vc/ops_reject.txt"""
import os, sys, re, tempfile
os.environ['VP_REJECTS'] = '1'
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + '/vc')
import replay_ops as O
f = R + '/vc/ops_reject.txt'; s = set(open(f).read().split('\n')) - {''}; n = len(s)
for p in (3, 22):
    with tempfile.TemporaryDirectory() as t:
        r = O.make(p)('quick', 1, t) if O.make(p).__code__.co_argcount == 3 else None
        for x in r['fails']:
            m = re.match(r'the program line (.*?) no longer compiles', x['text'])
            if m: s.add(m.group(1))
open(f, 'w').write('\n'.join(sorted(s)) + '\n'); print(n, len(s))
