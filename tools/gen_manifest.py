#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': p.get('technique', 'property-based testing: generated histories against a reference model, with shrinking'),
            'level': p.get('level', 'exploration'),
            'level_note': p.get('note', 'Generated-input search against an explicit oracle; assures the explored cases only. ')
                          + ' Assumes: ' + '; '.join(p.get('assumptions', [])),
        })
    else:
        na.append({'property': i, 'reason': props.NOT_APPLICABLE.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check rebuilds /repo (its own CMake project, with stand-ins for the two submodules that are empty here) into /verif/build. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
