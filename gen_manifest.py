#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the tables below (developer tool; not run by the checks)."""
import json, sys
sys.path.insert(0, '/verif/engine')
import manifest_table as mt
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for i in ids:
    if i in mt.CHECKS:
        tech, level, note = mt.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': level, 'level_note': note})
na = [{'property': i, 'reason': mt.NA.get(i, 'not yet wired: the analysis for this property is still being built')} for i in ids if i not in mt.CHECKS]
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na, 'notes': mt.NOTES}, open('/verif/MANIFEST.json', 'w'), indent=1)
