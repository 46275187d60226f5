"""writes /verif/MANIFEST.json from props.PROPS and the list of properties"""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import props                                        # noqa: E402
ids = [json.loads(x)['id'] for x in open(os.path.join(here, 'properties.jsonl'))]
NA = props.NOT_APPLICABLE
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                 'technique': props.PROPS[i]['technique'], 'level': props.PROPS[i]['level'],
                 'level_note': props.PROPS[i]['note'] or props.NOTE} for i in ids if i in props.PROPS],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'the analysis for this property is not built')} for i in ids if i not in props.PROPS]}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
