#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from contracts/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'contracts'))
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = registry.NOT_APPLICABLE
checks = []
for p in props:
    i = p['id']
    if i not in registry.PROPS: continue
    s = registry.PROPS[i]
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', evidence_file=f'evidence/{i}.json',
        technique=s.get('technique', 'contract-based deductive verification (VC generation over the LLVM IR of the real code, z3); bounded native execution of the contracts as replay and stand-in'),
        level=s.get('level', 'proof'), level_note=s['text']))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check built for it yet')) for p in props if p['id'] not in registry.PROPS]
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
         notes='Contracts are in contracts/*.cc, the verifier in eisvc/. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
print(len(checks), 'checks', len(na), 'not applicable')
