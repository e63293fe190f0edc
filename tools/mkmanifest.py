#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from properties.jsonl and the contract registry."""
import json, os, sys, warnings
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
from pydv import verify

NOTES = {}
p = os.path.join(HERE, 'tools', 'level_notes.json')
if os.path.exists(p):
    NOTES = json.load(open(p))
reg = verify.load_contracts('/repo')
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for q in props:
    cs = [c for c in reg.values() if c.prop == q]
    if not cs:
        na.append(dict(property=q, reason='no contract within reach yet'))
        continue
    ded = [c for c in cs if c.opts['deductive']]
    bo = [c for c in cs if not c.opts['deductive']]
    note = NOTES.get(q, '')
    note += (' Obligations are generated from the current source of /repo/skcurve by pydv (symbolic execution of the real code, '
             'unbounded sizes) and discharged by z3/cvc5; floats are treated as reals, numpy/scipy primitives by contract.') if ded else ''
    if bo:
        note += ' Bounded stand-ins (run-time contracts, not proved): ' + ', '.join(c.name for c in bo) + '.'
    checks.append(dict(property=q, quick_cmd='./check.py %s' % q, thorough_cmd='./check.py %s --tier thorough' % q,
                       technique='contract-based deductive verification (pydv: symbolic verification conditions, z3/cvc5) with run-time contracts replaying counterexamples'
                       if ded else 'run-time contracts on the real code (bounded stand-in for deductive contracts)',
                       level='proof' if ded else 'exploration', level_note=note.strip()))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
