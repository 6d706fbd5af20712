import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.claims import CLAIMS, NA
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        checks.append({'property': p, 'quick_cmd': 'python3 bin/check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check ' + p,
                       'technique': tech, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': p, 'reason': NA.get(p) or 'no static check built yet'})
m = {'version': 1, 'setup_cmd': 'python3 bin/selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks read /repo/**/*.py with the standard ast module; nothing of /repo is imported or executed. PEANO_REPO selects another tree.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
