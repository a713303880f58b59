"""Write /verif/MANIFEST.json from claims.py and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {'LEVEL': {}, 'BOUNDED': {}}
exec(open(H + '/claims.py').read(), g)
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in g['CLAIMED']:
        lvl = g['LEVEL'].get(i, 'proof')
        checks.append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': './check.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'contracts on the real Go functions, obligations generated from the extracted source and discharged by symbolic execution, term normalisation and z3',
                       'level': lvl, 'level_note': g['NOTE'].get(i, 'Every contract tagged with the property is discharged for all inputs on every run, assuming the listed contracts of lattigo and mathematical integers.')
                       + (' Bounded stand-in (not counted as proved): ' + g['BOUNDED'][i] if i in g['BOUNDED'] else '')})
    else:
        na.append({'property': i, 'reason': g['WHY_NOT'].get(i, 'contracts for this property are still being written')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
