"""development: write properties.jsonl and MANIFEST.json from sa/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import props, rules
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = props.NA
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.P + NA:
        files = []
        for k, m, n in (rules.expand(p['funcs']) if p['funcs'] else []):
            if m not in files:
                files.append(m)
        files = files or p.get('files', [])
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                                why_tests_cant=p['why'], anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
man = dict(version=1, setup_cmd='python3 -c "import ast, json, sys; sys.exit(sys.version_info < (3, 9))"', checks=[], not_applicable=[])
for p in props.P:
    man['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                              technique=p.get('technique') or 'value-flow (gated SSA) equivalence with reviewed reference definitions',
                              level='other',
                              level_note=p.get('note') or 'Every observable of the anchored functions (returned value, final field values, effectful calls with conditions, loops and order, raise '
                              'conditions, defaults) is shown equal to the reviewed reference for all inputs, with library functions uninterpreted. Trusts the reference review '
                              'and the extraction; obligations counted undecided are not claimed.'))
for p in NA:
    man['not_applicable'].append(dict(property=p['id'], reason=p['reason']))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(props.P), 'claimed', len(NA), 'not applicable')
