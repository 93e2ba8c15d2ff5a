"""Writes MANIFEST.json from config.py (claimed) and properties.jsonl (everything else is not applicable)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from config import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    c = PROPS.get(p['id'])
    if not c or not c['specs']:
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py --property %s --tier quick' % p['id'],
                       thorough_cmd='python3-vt check.py --property %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=c.get('technique', 'contract-based deductive verification of the C++ AST (VC generation, z3/cvc5) with bounded replay harness'),
                       level=c['level'], level_note=c['note']))
na = [dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'check not built yet')) for p in props if not PROPS.get(p['id'], {}).get('specs')]
json.dump(dict(version=1, setup_cmd='python3-vt -m compileall -q dv contracts check.py config.py', checks=checks, not_applicable=na),
          open(V + '/MANIFEST.json', 'w'), indent=1)
