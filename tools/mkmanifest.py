import json, sys
sys.path.insert(0, '/verif')
from contracts.props import PROPS, NOT_APPLICABLE
checks = []
for k in sorted(PROPS):
    c = PROPS[k]
    checks.append({'property': k, 'quick_cmd': './check %s quick' % k, 'thorough_cmd': './check %s thorough' % k,
                   'evidence_file': 'evidence/%s.json' % k,
                   'technique': c.get('technique', 'contracts on the real functions, verification conditions from the clang AST discharged by z3/cvc5'),
                   'level': c.get('level', 'proof'),
                   'level_note': c.get('note', 'Every obligation of the listed functions is discharged for all inputs; assumes mathematical integers, doubles as reals and the standard library models listed as trusted_base; a sanitizer harness on the real code searches for a failing input.')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
     'notes': 'See DESIGN.md. Each check extracts the functions mechanically from the current /repo sources (clang AST), infers and proves loop invariants, and checks every function against its contract in contracts/*.py.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
