import json, sys
sys.path.insert(0, '/verif')
import props
TECH = 'abstract interpretation of MIR (inferred loop and class invariants, linear/bit/prefix-count domains, trace partitioning)'
NOTE = ('Every obligation is discharged for all inputs over inferred invariants, or, where an invariant is too weak, left undecided in the '
        'evidence and gone through with the first iterations of every loop kept apart; only exact abstract states raise an alarm. '
        'Trusts rustc\'s MIR, the analyser and its standard-library models.')
checks, na = [], []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)['id']
    s = props.SPEC.get(p)
    if s:
        checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'technique': s.get('technique', TECH), 'level': 'other', 'level_note': s.get('note', NOTE)})
    else:
        na.append({'property': p, 'reason': props.NA.get(p, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
