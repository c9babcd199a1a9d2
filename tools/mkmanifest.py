#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that the harness knows is claimed."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
out = subprocess.run([os.path.join(root, 'harness/target/debug/rv'), 'list'], capture_output=True, text=True, check=True).stdout
have = {l.split()[0]: l for l in out.splitlines()}
notes = json.load(open(os.path.join(root, 'tools/notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        n = notes[i]
        checks.append({
            'property': i,
            'quick_cmd': './check.sh ' + i,
            'thorough_cmd': './check.sh ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': n['technique'],
            'level': n.get('level', 'exploration'),
            'level_note': n['note'],
        })
    else:
        na.append({'property': i, 'reason': 'not yet built'})
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'One Rust harness (harness/, crate rv) with a path dependency on /repo; no hooks in /repo are needed: instrumentation sits at the Backend trait, in the allocator and in interposed libc calls. Tier from VERIF_TIER, seed from VERIF_SEED.',
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
