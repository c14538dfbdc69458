#!/usr/bin/env python3
# MANIFEST.json from properties.jsonl, the harness files and the tables below
import json, os, subprocess
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(base + '/properties.jsonl')]
NA = {
 'C32': 'Relative error of an iterative floating-point SVD and of coordinate descent: bit-precise encodings of these loops are far beyond SMT solvers, and the exact-real encoding used here abstracts rounding away.',
}
TECH = {}
NOTE = {}
COMMON = ('Symbolic execution of the real Go code (go/ssa regenerated from /repo on every run) with SMT (z3, cvc5 on unknowns) deciding every branch and assertion '
 'for all values within the stated bounds; counterexamples are replayed on the natively compiled code before they are reported. ')
REAL = 'Floats are exact reals (no rounding). '
checks = []
na = []
for p in props:
    i = p['id']
    if os.path.exists(f'{base}/harness/{i}.go') and i not in NA:
        src = open(f'{base}/harness/{i}.go').read()
        sched = any(w in src for w in ('delay=', 'full ', ' race'))
        t = 'bounded symbolic execution of the Go SSA with SMT (z3)'
        if sched:
            t += ', schedules as decision variables'
        note = COMMON + (REAL if 'real' in src else 'Floats are SMT floating point. ') + \
            'Bounds (sizes, ranges, schedules) are in the harness comments and the evidence file; nothing is claimed outside them. Trusted: the engine, its models of the standard library and gonum SVD (exact decomposition), the solver.'
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough', evidence_file=f'evidence/{i}.json',
                           technique=t, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check built yet: the harness for this property is still missing.')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='One check = one property; harnesses in harness/<id>.go, engine in engine/. No hooks in /repo are needed.'), open(base + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
