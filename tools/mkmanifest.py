"""Writes /verif/MANIFEST.json: claims every property that has a contract module (run by hand with python3-vt)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = {
}
NA = {
}
GEN = ('Contracts evaluated over the parse trees of /repo\'s current source by a symbolic executor; z3/cvc5 discharge every obligation, '
       'loops by invariants (no bound). The same contracts also run on the real code under Jython, where counterexamples are replayed. '
       'Trusted: the executor and its models of builtins/struct/re/uuid, the solvers, the parser; logging and scheduling have no effect on state. ')
sys.path.insert(0, os.path.join(H, 'pyvc'))
import prove

def units(prop):
    """(title, mode, bound or None) of every unit"""
    return [(u.name, u.mode, u.bounded) for u in prove.load_contracts(prop).of(prop)]

checks, na = [], []
for p in props:
    i = p['id']
    f = [n for n in sorted(os.listdir(os.path.join(H, 'contracts'))) if n.startswith(i.lower()) and n.endswith('.py')]
    if not f or i in NA:
        na.append({'property': i, 'reason': NA.get(i, 'no check is registered for it yet')})
        continue
    us = units(i)
    proved = [t for t, m, b in us if m != 'conc' and not b]
    note = ('Proved units: ' + '; '.join(proved) + '. ' if proved else 'Nothing here is proved without a bound. ') + \
           ('Bounded stand-ins (not counted as proved): ' + '; '.join('%s [%s]' % (t, b or 'drawn inputs') for t, m, b in us if m == 'conc' or b) + '. ' if len(proved) < len(us) else '')
    checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification (symbolic execution of the source against contracts, SMT)' if proved else 'contracts executed on the real code, bounded (stand-in for deductive verification)',
                   'level': 'proof' if proved else 'exploration', 'level_note': note + GEN + NOTE.get(i, '')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: checks read the source of the working tree and run it under Jython with a stand-in for eventlet.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
