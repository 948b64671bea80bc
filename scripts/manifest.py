#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the notes below and the hook commits of /repo."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(here, 'scripts/notes.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    n = notes.get(p['id'])
    if n is None:
        na.append({'property': p['id'], 'reason': 'its monitor is not written yet'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"bash scripts/check.sh {p['id']} quick",
        'thorough_cmd': f"bash scripts/check.sh {p['id']} thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': n['technique'],
        'level': 'exploration',
        'level_note': n['note'],
    })
m = {
    'version': 1,
    'setup_cmd': 'bash scripts/setup.sh',
    'hooks': {
        'guard': 'zkp_monitor (rustc --cfg flag, off by default)',
        'enable': 'RUSTFLAGS="--cfg zkp_monitor" when scripts/build.sh builds the harness crate, which depends on /repo by path; without the hook only the direct Merkle tree cases of C09 are left out',
        'source_commits': hooks,
    },
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check runs the real code under generated and hostile workloads with monitors (reference models, trapdoor oracles, recorded hash logs) and arithmetic-overflow, bounds and debug-assertion instrumentation. See DESIGN.md.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
