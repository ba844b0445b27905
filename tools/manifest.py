"""Writes MANIFEST.json: a check for every property that has theorems, not_applicable for the rest (props.NA)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pydv import props
checks = []
na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if not os.path.exists('%s/specs/%s.py' % (V, p.lower())) or p in props.NA:
        na.append({'property': p, 'reason': props.NA.get(p, 'not built yet')})
        continue
    m = props.META[p]
    checks.append({'property': p, 'quick_cmd': 'cd /verif && python3-vt -B -m pydv.check %s --tier quick' % p,
                   'thorough_cmd': 'cd /verif && python3-vt -B -m pydv.check %s --tier thorough' % p,
                   'technique': props.TECHNIQUE, 'level': m['level'], 'level_note': m['note']})
d = {'version': 1, 'setup_cmd': 'cd /verif && python3-vt -B -c "import z3, cvc5"', 'checks': checks, 'not_applicable': na}
json.dump(d, open(V + '/MANIFEST.json', 'w'), indent=1)
