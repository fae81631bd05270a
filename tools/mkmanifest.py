#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts import registry as r
checks = []
for p in sorted(r.META):
    m = r.META[p]; proof = m['level'] == 'proof'
    checks.append(dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p, technique=m.get('technique') or (
        'contract-based deductive verification of the real functions (pyver: verification conditions from the current source; z3, cvc5), failed obligations replayed on the real code' if proof else
        'deductive verification of contracts on the real functions as far as the verifier reaches, with a bounded runtime contract check of the real code for the rest'),
        level=m['level'], level_note=m.get('note') or ('Every obligation of the contracts, for all inputs, over exact real arithmetic; the translation (pyver) and the solvers are trusted. A bounded run-time check of the same contracts on real floats runs beside it.' if proof else
        'bounded: runtime contract checking of the real code on generated inputs against an independent oracle; not a proof.')))
out = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=[dict(property=p, reason=x) for p, x in r.NOT_APPLICABLE.items()],
           notes='No hooks in /repo: contracts live in /verif/contracts and are attached to the functions of /repo by name; the functions are extracted from the current source on every run.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(out, f, indent=1); f.write('\n')
