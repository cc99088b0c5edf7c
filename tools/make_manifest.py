"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
LEVEL = {}
NOTES = {}
TECH = {}
try:
    import levels
    LEVEL, NOTES, TECH = levels.LEVEL, levels.NOTES, levels.TECH
except ImportError:
    pass
checks = []
for p in props:
    i = p['id']
    checks.append(dict(property=i, quick_cmd='python3 check.py {} --tier quick'.format(i),
        thorough_cmd='python3 check.py {} --tier thorough'.format(i), evidence_file='evidence/{}.json'.format(i),
        technique=TECH.get(i, 'run-time contract checking of the real code on generated inputs (bounded)'),
        level=LEVEL.get(i, 'exploration'),
        level_note=NOTES.get(i, 'Bounded: the contract is evaluated on generated inputs; nothing is proved yet.')))
json.dump(dict(version=1, setup_cmd='mkdir -p evidence', checks=checks, not_applicable=[],
    notes='check.py runs a deductive layer (pv/) and a bounded run-time contract layer (rt/) per property; see DESIGN.md'),
    open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
