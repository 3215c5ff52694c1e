#!/usr/bin/env python3-vt
"""writes MANIFEST.json: level proof for the properties carried by contracts, exploration (bounded) for the others"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vc'))
import suites
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
carry = {}
for n in suites.ENABLED:
    sp, _ = suites.load(n)
    for k, c in sp.contracts.items():
        if not c.assumed:
            for p in c.props:
                carry.setdefault(p, []).append(k)
checks = []
for p in props:
    i = p['id']
    fs = sorted({k.split('::')[-1].split('#')[0].split('/')[0] for k in carry.get(i, [])})
    if fs:
        lv, te = 'proof', 'contracts on the real functions (clang AST of /repo), VCs discharged by z3/cvc5; concrete replay search beside it'
        note = ('Every obligation of the contracts of %s and of the contracts they use is discharged on each run; what these contracts leave out '
                '(see DESIGN.md) is covered by a bounded search over the real code only. Assumes: sequential reasoning per function with a rely '
                'condition at callbacks, library contracts of std containers, no exceptions, termination not proved.' % ', '.join(fs))
    else:
        lv, te = 'exploration', 'bounded comparison of the real code with a reference (stand-in, not proved)'
        note = 'Bounded stand-in: no contract carries this property yet; nothing is proved. Random scenarios with a time limit, see DESIGN.md.'
    checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': te, 'level': lv, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q vc check.py && ./tools/selfcheck.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'Properties considered and not listed, because this family cannot decide them here: see DESIGN.md, section Not applicable.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
