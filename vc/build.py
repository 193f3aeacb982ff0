"""Builds the translation units from /repo's current working tree."""
import subprocess, tempfile, os, re, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/bin/clang++', 'clang++-18', 'clang++') if shutil.which(c)), 'clang++')
FLAGS = ['-std=gnu++17', '-w', '-O0', '-I' + REPO, '-I' + os.path.join(ROOT, 'driver')] + (['-gline-tables-only'] if os.environ.get('VP_COV') else [])

# wrappers of calls the library's own templates never accepted (tools/mkskip.py)
SKIP = set(open(os.path.join(HERE, 'skip.txt')).read().split()) if os.path.exists(os.path.join(HERE, 'skip.txt')) and not os.environ.get('VP_SKIP') else set()
def uid(line):
    m = re.search(r'w__(\w+)\(', line); return m.group(1) if m else line

class TU:
    """source lines; every wrapper occupies one line `lines[i]` so that a wrapper
    the current tree does not accept can be dropped on its own"""
    def __init__(self, name, head, lines, gen):
        self.name, self.head, self.lines, self.gen = name, head, list(lines), gen
        self.dropped = []; self.error = None; self.ir = None
    def compile(self, tmp):
        live = [i for i in range(len(self.lines)) if uid(self.lines[i]) not in SKIP]; src = os.path.join(tmp, self.name + '.cpp'); out = os.path.join(tmp, self.name + '.ll')
        base = self.head.count('\n') + 1
        for attempt in range(400 if os.environ.get('VP_SKIP') else 8):
            with open(src, 'w') as f:
                f.write(self.head + '\n' + '\n'.join(self.lines[i] for i in live) + '\n')
            p = subprocess.run([CLANG] + FLAGS + ['-ferror-limit=0'] + (['-fsyntax-only', src] if os.environ.get('VP_SKIP') else ['-S', '-emit-llvm', src, '-o', out]), capture_output=True, text=True)
            if p.returncode == 0: self.ir = out; return
            bad = {int(n) - base - 1 for n in re.findall(re.escape(src) + r':(\d+):', p.stderr)}
            drop = [live[b] for b in bad if 0 <= b < len(live)]
            if os.environ.get('VP_SKIP') and drop: drop = drop[:max(1, len(drop))]
            if not drop: self.error = p.stderr[:3000]; return
            self.dropped += [(self.lines[i], '') for i in drop]
            live = [i for i in live if i not in drop]
        self.error = 'too many compile attempts'

def build(tus):
    tmp = tempfile.mkdtemp(prefix='vmc-')
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda t: t.compile(tmp), tus))
    return tmp
