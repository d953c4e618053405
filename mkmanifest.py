import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'proof'))
import registry
checks = []
for p in sorted(registry.PROPS):
    c = registry.PROPS[p]
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p,
                   'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                   'technique': c.get('technique', 'contract conformance run-time engine (bounded)'),
                   'level': c.get('level', 'exploration'), 'level_note': c.get('note', 'bounded'),
                   'evidence_file': 'evidence/%s.json' % p})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
