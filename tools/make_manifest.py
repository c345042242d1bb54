#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'lib'))
import checks
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'), encoding='utf8')]
NA = {}
out = {'version': 1, 'setup_cmd': 'bin/setup',
       'checks': [], 'not_applicable': []}
for pid in props:
    if pid in checks.CHECKS:
        tech, note = checks.NOTES.get(pid, checks.DEFAULT_NOTE)
        out['checks'].append({'property': pid, 'quick_cmd': 'bin/check %s quick' % pid,
                              'thorough_cmd': 'bin/check %s thorough' % pid,
                              'evidence_file': 'evidence/%s.json' % pid,
                              'technique': tech, 'level': 'model_checking', 'level_note': note})
    else:
        out['not_applicable'].append({'property': pid, 'reason': NA.get(pid, 'specification and check not built yet')})
with open(os.path.join(here, 'MANIFEST.json'), 'w', encoding='utf8') as f:
    json.dump(out, f, ensure_ascii=False, indent=1)
    f.write('\n')
print(len(out['checks']), 'claimed;', len(out['not_applicable']), 'not')
