#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in table.INFO:
        n = table.INFO[i]
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           technique=n['technique'], level=n['level'], level_note=n['note']))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='none', enable='no hooks: harness crates depend on /repo crates by path', source_commits=[]),
         checks=checks, not_applicable=[dict(property=i, reason=table.NA.get(i, 'no check built yet')) for i in ids if i not in table.INFO],
         notes='contract-based verification of the real code: Kani (CBMC) harness contracts and Verus on mechanically extracted functions; see DESIGN.md')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in m['not_applicable']])
