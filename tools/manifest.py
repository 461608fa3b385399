#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, V)
from checks import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {
 'C39': 'one identity across shared libraries is decided by the dynamic linker and symbol visibility, not by code a solver can execute',
}
todo = 'no check built yet'
ch = []
for i in ids:
    if i not in PROPS: continue
    P = PROPS[i]
    ch.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i, technique='symbolic execution of LLVM IR with Z3 (QF_BV)', level='model_checking',
        level_note='Holds for every value, order and fault point within the bounds: ' + '; '.join(h['bounds'] for h in P['harnesses'] if h.get('bounds')) + '. Trusts clang lowering, the executor in engine/, Z3 and the stand-ins for the itlib and splat headers; sampled paths are re-run natively.' + (' Outside: ' + P['outside'] + '.' if P.get('outside') else '')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=ch, not_applicable=[dict(property=i, reason=NA.get(i, todo)) for i in ids if i not in PROPS])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(ch), 'claimed', [i for i in ids if i not in PROPS])
