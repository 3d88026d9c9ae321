#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
CHECKS = {}
exec(open('/verif/checks_table.py').read())
checks = []
na = []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            'property': i,
            'quick_cmd': f'./run.sh {i} quick',
            'thorough_cmd': f'./run.sh {i} thorough',
            'technique': c['technique'],
            'level': c['level'],
            'level_note': c['note'],
            'evidence_file': f'evidence/{i}.json',
        })
    else:
        na.append({'property': i, 'reason': 'The check is under construction; not claimed yet.'})
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {'guard': 'none', 'enable': 'No hooks: every check uses the public API of the crates.', 'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks enumerate bounded spaces exhaustively on the real code; see DESIGN.md.',
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
