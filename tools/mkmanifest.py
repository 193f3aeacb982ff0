import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = 'contract-based deductive verification: pre/postconditions on the real functions (clang LLVM IR of /repo, own VC generator, z3/cvc5), every obligation discharged per function for all inputs'
BASE = 'Every obligation of the listed functions is discharged for all inputs on the IR compiled from the current tree (callers against callee contracts, loops by inferred and proved invariants, heap and ownership tracked). Trusted: clang front end, VC generator, solvers, models of std::vector/string/exceptions. Doubles as reals. A bounded randomised run of the real code (never counted as proved) supplies failing inputs. '
NOTES = {}
CLAIMED = ['P01', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15']
NA = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in CLAIMED:
    checks.append(dict(property=p, quick_cmd='python3-vt check.py --prop %s --tier quick' % p, thorough_cmd='python3-vt check.py --prop %s --tier thorough' % p,
        evidence_file='evidence/%s.json' % p, technique=TECH.get(p, GEN), level='proof', level_note=(BASE_CT if p in TECH else BASE) + NOTES.get(p, '')))
na = [dict(property=p, reason=NA.get(p, 'no check yet')) for p in props if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
