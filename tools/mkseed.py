"""python3 tools/mkseed.py seeds_file.py [id..]: build seeded/<id>/ from (id, prop, file, old, new, needs, breaks, demo body);
verifies: applies, builds, stable tests pass, demo 0 without / nonzero with."""
import sys, os, json, subprocess, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaviour as documented; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
ulimit -v 8000000; ulimit -t 120
g++ -std=gnu++14 -w -g FLAGS -I. "$d/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && ./demo
'''
HEAD = open(os.path.join(HERE, 'tools', 'demo_head.hpp')).read()
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        d = os.path.join(HERE, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        w = '/tmp/seedwt'
        assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip()
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        try:
            for f, old, new in edits:
                p = os.path.join('/repo', f); t = open(p).read(); n = s.get('nth', 0)
                if t.count(old) < 1 or (t.count(old) > 1 and 'nth' not in s): print(s['id'], 'MATCHES', t.count(old), f); raise ValueError
                i = -1
                for _ in range(n + 1): i = t.index(old, i + 1)
                open(p, 'w').write(t[:i] + new + t[i + len(old):])
            diff = sh('git -C /repo diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD + s['demo'])
            fl = '-fsanitize=address,undefined -fno-sanitize-recover=all' if s.get('asan') else ''
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('FLAGS', fl)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            b = sh('bash /opt/vp/test.sh /tmp/seed.json')
            r = json.load(open('/tmp/seed.json')); ok = len(r['passed']) >= 7 and not r['failed']
            x = sh('bash %s/demo.sh' % d, cwd='/repo')
        except ValueError: continue
        finally: sh('git -C /repo checkout -- .')
        y = sh('bash %s/demo.sh' % d, cwd='/repo')
        print(s['id'], 'tests', 'OK' if ok else 'FAIL %s %s' % (r['failed'], (b.stdout + b.stderr)[-300:] if not r['passed'] else ''), 'demo patched rc', x.returncode, x.stdout[-150:].strip(), x.stderr[-200:].strip() if x.returncode == 2 else '', '| clean rc', y.returncode, y.stdout[-200:], y.stderr[-300:] if y.returncode else '')
    sh('bash /opt/vp/build.sh')
main()
