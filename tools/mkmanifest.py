#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, 'tools/levels.json')))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    i = p['id']
    if os.path.isdir(os.path.join(root, 'harness/cmd', i.lower())):
        checks.append({
            'property': i,
            'quick_cmd': './check ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
            'technique': notes[i][0],
            'level': 'exploration',
            'level_note': notes[i][1],
        })
    else:
        missing.append({'property': i, 'reason': 'the check is not built yet'})
m = {
    'version': 1,
    'setup_cmd': './setup',
    'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks only use exported identifiers of /repo', 'source_commits': []},
    'checks': checks,
    'not_applicable': missing,
    'notes': 'Every check builds its harness from /repo\'s working tree (module replace). VERIF_SEED seeds every random choice; replays: ./check ID --replay FILE.',
}
open(os.path.join(root, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
