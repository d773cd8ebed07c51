#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 'C07': ('property-based testing: grammar/mutation/token-soup fuzzing, crash and determinism oracle',
         'Generated and mutated source texts; never aborts, compiles twice to the same outcome, accepted programs run without an internal failure. Trusts the step-budget hook to cut off endless programs.'),
 'C27': ('property-based testing: structured token generator against an independent region oracle',
         'Generated texts and prefixes; emitted text and regions compared with the generator\'s own token list, and with the scanner on arbitrary text.'),
}
exec(open(os.path.join(root, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(root, 'tools', 'claims.py')) else None
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': f'bash check.sh {i}', 'thorough_cmd': f'bash check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'check still being built in this session'})
m = {'version': 1, 'setup_cmd': 'bash build.sh && bash build-bin.sh',
     'hooks': {'guard': 'cfg verif_hooks', 'enable': 'RUSTFLAGS="--cfg verif_hooks" (set by /verif/build.sh)', 'source_commits': ['35d13fa']},
     'checks': checks, 'not_applicable': na,
     'notes': 'VERIF_TIER selects the depth (quick, thorough); VERIF_SEED seeds every random choice.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
