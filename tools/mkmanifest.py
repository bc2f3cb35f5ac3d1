import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = {}
try:
    NOTE = json.load(open(os.path.join(H, 'tools', 'notes.json')))
except IOError:
    pass
checks = []
for p in props:
    i = p['id']
    lvl = 'proof' if os.path.exists(os.path.join(H, 'contracts', i.lower() + '.py')) else 'other'
    checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification of the real functions (verification conditions generated from /repo source by pyvc, z3/cvc5), runtime-contract replay and bounded stand-ins' if lvl == 'proof' else 'contracts evaluated at run time on the real code (bounded stand-in)',
        level=lvl, level_note=NOTE.get(i, 'See DESIGN.md and the evidence file: what is discharged for all inputs, what is bounded, what is assumed.')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
    notes='No hooks in /repo; every commit there is a fix:. See DESIGN.md.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
