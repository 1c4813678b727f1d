#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: one entry per check that exists in engine/."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
TECH = {
 'C01': 'abstract interpretation of MIR in a value-graph domain; symbolic derivative of the evaluated normal form compared with the adjoint\'s normal form',
 'C06': 'abstract interpretation of MIR with panic, overflow and unwrap obligations discharged by dominating conditions',
 'C07': 'abstract interpretation of MIR over a symbolic context store',
 'C08': 'analysis of macro-expanded, type-checked code (MIR of a fixture crate) plus type-level witnesses',
 'C09': 'abstract interpretation of MIR with an effect trace over the symbolic context store',
 'C10': 'interprocedural effect analysis: event traces over a symbolic context store and a deny-list over the call graph',
 'C16': 'abstract interpretation of MIR over symbolic shapes and indices; type-table equality of associated types',
 'C25': 'abstract interpretation of the iterator step function with an inferred affine invariant over its state, proved inductive per rank',
 'C17': 'whole-crate scan for unsafe operations, each discharged by extent and initialisation facts from abstract interpretation',
 'C19': 'comparison of type-checked MIR of macro expansions with that of the equivalent method calls',
 'C20': 'abstract interpretation of the formatting code into a string-template normal form, parsed back as algebra and compared',
 'C21': 'abstract interpretation of macro-generated impls in the type-checked crate',
 'C22': 'type-level closure check over the trait-impl table plus compile-time witnesses',
}
DEF = 'abstract interpretation of MIR in a value-graph (gated SSA) normal-form domain'
NOTE = ('Sound for the abstracted language (reals instead of floats, arbitrary extents and operands, no sampling) up to the trusted base: '
        'the MIR dumper, the models of core/num-traits functions and the normaliser. Obligations the normaliser cannot decide are reported as '
        'undecided in the evidence and raise no alarm; a violation is reported only with a separating valuation of the two normal forms or a structural mismatch.')
NA = {
 'C26': 'Accuracy of floating-point approximations is a numerical-error property of an external crate (special_fun); the analysis here works over exact reals and cannot bound rounding error.',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
def have(p):
    for m in ('nodes', 'bufs', 'shapesx', 'syntax', 'misc', 'closure', 'safety'):
        if os.path.exists(V + '/engine/%s.py' % m) and hasattr(importlib.import_module(m), p.lower()): return True
checks = [{'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p,
           'technique': 'static analysis: ' + TECH.get(p, DEF), 'level': 'other', 'level_note': NOTE} for p in ids if have(p)]
na = [{'property': p, 'reason': NA.get(p, 'Check not built yet.')} for p in ids if not have(p)]
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import run; run.driver()"', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
