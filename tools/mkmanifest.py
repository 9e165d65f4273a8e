"""Writes MANIFEST.json: every property with a checks/<id>.py is claimed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'property-based testing (Hypothesis): generated tensor pairs against an independent numpy einsum oracle',
    'C02': 'property-based testing: differential stateful programs, diagonal tensor vs its dense expansion (numpy model)',
    'C03': 'property-based testing: generated networks and sequences against one einsum reference',
    'C04': 'property-based testing: generated networks against an independent subset dynamic program for the minimum cost',
    'C05': 'model-based histories of copies and non-in-place contractions with before/after snapshots',
    'C06': 'stateful model-based testing of FiniteTensorNetwork histories against an einsum model',
    'C07': 'property-based testing of constructors against an independent decision-table model',
    'C08': 'stateful model-based testing against a labelled numpy array model',
    'C09': 'differential property-based testing: real tensors vs TensorLikes running the same program',
    'C10': 'property-based testing of merge/mergeLink: metamorphic (same product) and optimal-rank oracle',
    'C11': 'property-based testing of decompositions: round-trip, orthogonality and Eckart-Young oracle',
    'C12': 'property-based testing of two-site decompositions: round-trip, isometry, spectrum and optimality oracles (numpy)',
    'C13': 'stateful model-based testing of MPS canonical form against dense Schmidt data',
    'C14': 'model-based testing of MPS network contraction against einsum',
    'C15': 'property-based testing of Ising networks against spin enumeration / transfer matrices',
    'C16': 'property-based testing of CTMRG query histories against exact lattice contraction',
    'C17': 'property-based testing of TRG against exact torus contraction',
    'C18': 'property-based testing of HOTRG and impurities against exact torus contraction',
    'C19': 'model-based testing of graph histories and generated network texts',
    'C20': 'metamorphic testing: generated backend-switch histories with a recording tagged-array backend',
    'C21': 'property-based testing of predefined networks against einsum of the documented geometry',
    'C22': 'property-based testing of helper functions against reference implementations',
    'C23': 'stateful model-based testing: structure invariants after every step of generated programs',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': '/opt/venv/bin/python -B run.py ' + i + ' --tier quick',
                       'thorough_cmd': '/opt/venv/bin/python -B run.py ' + i + ' --tier thorough',
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'exploration',
                       'level_note': 'Randomised search over generated inputs with shrinking; no violation among the generated cases, '
                                     'no claim beyond them. Trusts numpy and the reference code in /verif/checks and /verif/vlib.'})
    else:
        na.append({'property': i, 'reason': 'No check committed yet (the technique applies; work in progress).'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo. Every check imports CTL from /repo/src as it is at that moment (pure Python, no build).'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
