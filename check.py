#!/usr/bin/env python3-vt
"""check.py --prop Pxx [--tier quick|thorough]: decide one property of /repo's current tree."""
import sys, os, time, json, argparse, shutil, multiprocessing as mp, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
T0 = time.time()
ap = argparse.ArgumentParser(); ap.add_argument('--prop', required=True); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--no-harness', action='store_true'); ap.add_argument('-v', action='store_true')
args = ap.parse_args()
P, TIER = args.prop, args.tier
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 420 if TIER == 'quick' else 3000
import ir, units as U, logic as L, build
SUITES = ['suite_core', 'suite_wrap', 'suite_latex', 'suite_tree', 'suite_lemma', 'suite_ct']
def load_suites():
    out = []
    for s in SUITES:
        if os.path.exists(os.path.join(HERE, 'vc', s + '.py')): out.append(importlib.import_module(s))
    return out
SESS = []; TASKS = []
def work(i):
    s, name, fn, body, hints = TASKS[i]
    S = SESS[s]; n0, t0, b0 = S.p.n, S.p.t, dict(S.p.by)
    r = S.run(name, body, hints)
    dem = S.m.demangled if S.m else (lambda f: f)
    if os.environ.get('VP_COV') and S.m: __import__("cov").dump(S.m, name)
    return dict(i=i, name=name, fn=dem(fn)[:300] if fn else '', err=r.err, time=r.time, ret=r.ret, reach=getattr(r, 'reach', ''), paths=r.paths,
                obls=[(list(o.props), o.name, o.res, o.where, o.detail) for o in r.obls],
                inl=sorted(dem(f)[:200] for f in r.funcs), con=sorted(r.contracted), mod=sorted(r.modelled), nq=S.p.n - n0, tq=S.p.t - t0,
                cvc5=S.p.by.get('cvc5', 0) - b0.get('cvc5', 0))
def main():
    lim = time.time() + BUDGET
    import replay
    hp = None if args.no_harness else replay.start(P, TIER, SEED)
    tus = []
    for s in load_suites(): tus += s.tus(P, TIER)
    tmp = build.build([t for t in tus if t.head is not None])
    undecided = []; dropped = []
    try:
        for t in tus:
            if t.head is None: SESS.append(t.sess)
            elif t.error: undecided.append(('translation unit ' + t.name, 'does not compile: ' + t.error.strip()[:400])); continue
            else:
                try: SESS.append(U.Session(ir.Module(open(t.ir).read())))
                except Exception as e: undecided.append(('translation unit ' + t.name, 'not readable: %s' % e)); continue
            dropped += [l[:160] for l, _ in t.dropped]
            try: us = t.gen(SESS[-1])
            except Exception as e: undecided.append(('translation unit ' + t.name, 'no units: %s' % traceback.format_exc()[-600:])); continue
            for n, f, b, h in us: TASKS.append((len(SESS) - 1, n, f, b, h))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    undecided += [('wrapper ' + l, 'not accepted by the compiler on this tree') for l in dropped]
    res = []
    if TASKS:
        pool = mp.get_context('fork').Pool(args.jobs)
        it = pool.imap_unordered(work, range(len(TASKS)), 1); done = set()
        try:
            while len(done) < len(TASKS):
                r = it.next(max(1, lim - time.time())); res.append(r); done.add(r['i'])
        except mp.TimeoutError: pass
        except Exception as e: undecided.append(('worker', str(e)))
        pool.terminate()
        for i in range(len(TASKS)):
            if i not in done: undecided.append((TASKS[i][1], 'time budget'))
    res.sort(key=lambda r: r['i'])
    own, dep, unk = [], [], []
    nob = nd = 0
    for r in res:
        if r['err']: undecided.append((r['name'], r['err'][:500]))
        if r['reach'] == 'vacuous': undecided.append((r['name'], 'the assumptions of every path are contradictory'))
        for props, name, st, where, det in r['obls']:
            nob += 1; nd += st == 'proved'
            if st == 'failed': (own if P in props else dep).append((r, name, where, det))
            elif st != 'proved': unk.append((r, name, where, det)); undecided.append((r['name'] + ': ' + name, 'solver gives no answer'))
    h = None
    if hp: h = replay.finish(hp, max(30, lim + 120 - time.time()))
    known = []
    kf = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(kf): known = [k for k in json.load(open(kf))['findings'] if k['property'] == P and k.get('status') == 'open']
    viol = []
    used = set()
    for f in (h or {}).get('fails', []):
        k = next((k for k in known if k['match'] in f['key']), None)
        if k: used.add(k['id']); continue
        viol.append(f)
    ob = []
    for r, name, where, det in own:
        key = '%s: %s' % (r['name'], name)
        k = next((k for k in known if k.get('obligation') and k['obligation'] in key), None)
        if k: used.add(k['id']); continue
        ob.append((r, name, where, det))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (P, k['what']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', 'replay-%s.txt' % P)
    if os.path.exists(rp): os.remove(rp)
    broken = (h or {}).get('broken', [])
    bad = bool(viol or ob or broken)
    if bad:
        with open(rp, 'w') as f:
            f.write('property %s\n\n' % P)
            for v in viol[:5]: f.write('FAILING INPUT (run against the real code)\n%s\n\n' % v['text'])
            for b in broken: f.write('THE LIBRARY CODE CANNOT BE INSTANTIATED (no contract of it can be met)\n%s\n%s\n\n' % (b, h.get('error', '')))
            for r, name, where, det in (ob + dep)[:12]:
                f.write('FAILED OBLIGATION %s: %s\n  function: %s\n  at: %s\n%s\n\n' % (r['name'], name, r['fn'], where, det[:3000]))
            if viol and h.get('rerun'): f.write('re-run: %s\n' % h['rerun'])
    ev = dict(property=P, tier=TIER, seed=SEED, level='proof', wall_s=round(time.time() - T0, 2), violations=len(viol) + len(ob) + len(broken),
        coverage=dict(obligations=nob, discharged=nd, checker_cmd='python3-vt check.py --prop %s --tier %s (%s)' % (P, TIER, 'clang-18 -ast-print of /repo, vc/ctsym.py, z3, cvc5' if P in CTP else 'clang-18 IR of /repo, vc/exec.py, z3, cvc5'),
            trusted_base=TRUST_CT if P in CTP else TRUST, functions_under_contract=sorted({r['fn'] for r in res if r['fn'] and not r['err']}),
            units=len(TASKS), units_decided=sum(1 for r in res if not r['err']), paths=sum(r['paths'] for r in res),
            inlined_functions=len({x for r in res for x in r['inl']}), contracts_used=sorted({x for r in res for x in r['con']}),
            library_models=sorted({x for r in res for x in r['mod']}), queries=sum(r['nq'] for r in res), solver_s=round(sum(r['tq'] for r in res), 2),
            by_backend={'cvc5 (after z3 gave no answer)': sum(r['cvc5'] for r in res), 'z3': nd - sum(r['cvc5'] for r in res)},
            returning_units=sum(1 for r in res if r['ret']), vacuity=dict(consistent=sum(1 for r in res if r['reach'] == 'sat'), not_refuted=sum(1 for r in res if r['reach'] == 'unknown'), contradictory=[r['name'] for r in res if r['reach'] == 'vacuous']), undecided=[list(u) for u in undecided[:60]], failed_dependencies=['%s: %s' % (r['name'], n) for r, n, w, d in dep[:20]],
            failed=['%s: %s' % (r['name'], n) for r, n, w, d in own[:20]]),
        assumptions=ASSUME_CT if P in CTP else ASSUME)
    if h:
        ev['coverage'].update(evaluations=h['cases'], distinct_nontrivial=h['distinct'], rule=h['rule'], samples=h['samples'][:6], bounded_replay=dict(note='bounded cross-check of the real code against an independent oracle; not counted as proved', **{k: h[k] for k in ('error', 'rerun') if k in h}))
    # wholly outside the verifier's reach on this run: say so
    json.dump(ev, open(os.path.join(HERE, 'evidence', P + '.json'), 'w'), indent=1)
    if args.v:
        for u in undecided: print('undecided', u[0], '|', u[1])
        for r, name, where, det in own + dep: print('failed', r['name'], '|', name, '|', where[:200]); print(det[:600])
        if h and h.get('error'): print(h['error'])
        for v in (h or {}).get('fails', [])[:5]: print(v['text'])
    print('%s: %d units, %d/%d obligations discharged, %d undecided, %d failed (%d in other contracts), %d replay cases, %.1f s'
          % (P, len(TASKS), nd, nob, len(undecided), len(own), len(dep), (h or {}).get('cases', 0), time.time() - T0))
    if bad:
        print('VIOLATION property=%s replay=%s%s' % (P, os.path.relpath(rp, HERE), '' if viol else ' no-failing-input-found'))
        return 1
    return 0
CTP = ('P16', 'P17', 'P18', 'P19', 'P20', 'P21')
TRUST_CT = ['clang 18 front end and its -ast-print', 'vc/ctmeta.py (reader), vc/ctsym.py (specialisation selection, verification condition generator)', 'specification functions and their unfoldings in vc/suite_ct.py', 'z3, cvc5']
ASSUME_CT = ['integers are mathematical except for the narrowing to int, which is modelled (overflow of long is outside)', 'instantiations the compiler rejects have no result', 'recursive instantiations terminate (a compile error otherwise)', 'types are built from the library\'s compile-time classes (closed world)']
TRUST = ['clang 18 front end (C++ to LLVM IR at -O0)', 'vc/ir.py, vc/exec.py, vc/loops.py (verification condition generator)', 'z3 4.8/python bindings, cvc5 1.1.2',
         'vc/models.py: contracts of operator new/delete, std::vector, std::string and streams (opaque), Itanium exceptions and dynamic_cast', 'libm functions as uninterpreted functions']
ASSUME = ['double arithmetic is real arithmetic (rounding, overflow, NaN are outside)', 'integers are exact machine integers', 'allocation never fails',
          'node classes are the ones the library defines (closed world)', 'functor objects return normally and allocate what they return', 'the double nearest to ln(10) stands for ln(10)']
if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
