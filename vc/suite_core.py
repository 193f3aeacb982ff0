"""Units for the virtual methods: every class x every contracted method."""
from build import TU
import units as U
KEYS = {'P01': 'evalv eval1 apply1 apply2', 'P02': 'evalv eval1', 'P04': 'subst manip deep_equal shallow_equal equal clone', 'P05': 'substL deep_equal shallow_equal equal clone',
        'P06': 'simplify osimplify can_simplify ocan0 ocan2 is_constant unwrap clone evalv eval1 apply1 apply2 is_unary', 'P07': 'simplify osimplify can_simplify ocan0 ocan2 is_constant unwrap clone is_unary apply1 apply2',
        'P08': 'diff odiff2 odiff3 deep_equal equal shallow_equal clone is_constant is_unary', 'P09': 'diff odiff2 odiff3 deep_equal equal clone is_constant shallow_equal is_unary',
        'P10': 'deep_equal shallow_equal equal', 'P11': 'clone', 'P12': '*', 'P13': 'is_constant unwrap evalv eval1 apply1 apply2', 'P14': 'manip trav clone',
        'P15': 'Vec.* osimplify simplify', 'P25': '', 'P03': 'clone'}
def gen_override(prop):
    ks = KEYS.get(prop, '').split()
    def gen(S):
        out = []
        for n, r, t, k, f in U.override_units(S.con0):
            if '*' in ks or k in ks or ('Vec.*' in ks and n.startswith('Vec.')):
                if prop == 'P15' and k in ('simplify', 'osimplify') and 'MULT' not in n and not n.startswith('Vec') and not n.startswith('Bin'): continue
                out.append((n, f, lambda x, r=r, t=t, k=k, f=f: U.override_body(x, S.con0, r, t, k, f), {}))
        return out
    return gen
def tus(prop, tier):
    if not KEYS.get(prop): return []
    return [TU('core', '#include "acc.hpp"', [], gen_override(prop))]
