#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/registry.py."""
import json, sys
sys.path.insert(0, '/verif/tools')
import registry
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    P = registry.PROPS.get(i)
    if not P:
        na.append({'property': i, 'reason': registry.NOT_APPLICABLE[i]}); continue
    tech = []
    if P.get('verus'): tech.append('contract-based deductive verification of functions extracted from the source on every run (Verus/Z3, unbounded)')
    if P.get('kani'): tech.append('Kani/CBMC proofs of the contracts of real-crate functions')
    tech.append('bounded contract check of the real crates (labelled bounded) where functions are out of reach and to find failing inputs')
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
                   'technique': '; '.join(tech), 'level': P['level'], 'level_note': P.get('note') or registry.NOTE})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'cfg(vortex_verif)', 'enable': 'RUSTFLAGS="--cfg vortex_verif" (native/env.sh)', 'source_commits': ['c4c3b43735146679472aa06199360051053a9029']}, 'checks': checks, 'not_applicable': na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
