#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for every harness, not_applicable for the rest."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {}
NOT_APPLICABLE = {
    'C26': 'Convergence of the search for arbitrary functions is not bounded: it depends on infinitely many '
           'floating-point function values and on Nelder-Mead iterations without a bound, so no symbolic execution '
           'within bounds says anything about it.',
}
COMMON = ('Exact-real symbolic execution of the real code, every branch and assertion decided by z3 for all values '
          'within the bounds listed in the evidence; outside of the bounds and for double rounding nothing is claimed. '
          'Trusted: CPython, numpy object arrays, the operand classes and contracts in symx/, z3.')

COMMON_FP = COMMON.replace('Exact-real symbolic', 'Floating-point symbolic').replace('; for double rounding', '')
COMMON_FP = COMMON_FP.replace(' and for double rounding nothing', ' nothing')

with open(os.path.join(VERIF, 'tools', 'level_notes.json')) as f:
    NOTES = json.load(f)

props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(VERIF, 'harness', pid.lower() + '.py')):
        note = NOTES.get(pid, {})
        checks.append({
            'property': pid,
            'quick_cmd': './run_check.sh ' + pid,
            'thorough_cmd': 'VERIF_TIER=thorough ./run_check.sh ' + pid,
            'evidence_file': 'evidence/{}.json'.format(pid),
            'technique': note.get('technique', 'symbolic execution of the real Python code with an SMT solver (z3)'),
            'level': 'model_checking',
            'level_note': (note.get('note', '') + ' ' + (COMMON if pid != 'C27' else COMMON_FP)).strip(),
        })
    else:
        na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'No check built yet.')})
out = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: the symbolic operands are injected from symx/npshim.py into the imported modules.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
