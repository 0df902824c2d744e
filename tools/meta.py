#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VN = "abstract interpretation of the compiled IR in a value-numbering domain"
P = []
NA = []
def prop(id, title, statement, over, q, why, files, mech, technique=None, level='other', note='', claimed=True, na=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, statement
    P.append(dict(json=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), technique=technique, level=level, note=note, claimed=claimed, na=na))
I = 'include/caligo/'
exec(open(V + '/tools/props.py').read())
P.sort(key=lambda p: p['json']['id'])
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p['json']) + '\n' for p in P))
M = dict(version=1, setup_cmd='bash /verif/engine/build.sh', checks=[dict(property=p['json']['id'], quick_cmd=f"python3 /verif/check.py {p['json']['id']} --tier quick",
    thorough_cmd=f"python3 /verif/check.py {p['json']['id']} --tier thorough", technique=p['technique'], level=p['level'], level_note=p['note']) for p in P if p['claimed']],
    not_applicable=[dict(property=p['json']['id'], reason=p['na']) for p in P if not p['claimed']])
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p['json'], s)
    jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid:', len(P), 'properties,', len(M['checks']), 'claimed')
except ImportError: print('written (no jsonschema)')
