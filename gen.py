#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and queries.py."""
import json, os
import props, queries
H = os.path.dirname(os.path.abspath(__file__))
with open(H + '/properties.jsonl', 'w') as f:
    for i, p in sorted(props.P.items()):
        assert len(p['title']) <= 80, i
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
TECH = 'symbolic execution of the library\'s LLVM bitcode (symx) with an SMT solver (Z3), against an operating-system model'
m = dict(version=1, setup_cmd='python3 vx.py setup',
         checks=[dict(property=i, quick_cmd='python3 vx.py check %s --tier quick' % i, thorough_cmd='python3 vx.py check %s --tier thorough' % i, technique=TECH, level='other',
                      level_note=p['note'] + ' Bounded: see the bounds in the evidence; trusts the operating-system model (model/kmodel.c), clang\'s bitcode and Z3.')
                 for i, p in sorted(props.P.items()) if i in queries.Q],
         not_applicable=[dict(property=i, reason=r) for i, r in sorted(props.NA.items())])
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
assert not [i for i in props.P if i not in queries.Q and i not in props.NA], 'unclaimed'
assert not [i for i in queries.Q if i not in props.P]
# the table of planted bugs in DESIGN.md
D = open(H + '/DESIGN.md').read()
a, b = D.index('<!-- seeds -->'), D.index('<!-- /seeds -->')
rows = ['| id | breaks | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(H + '/seeded')) if os.path.isdir(H + '/seeded') else []:
    j = json.load(open(H + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s |' % (i, j['what_it_breaks'], j['needs'], j.get('caught_by', j['property'])))
if len(rows) > 2: open(H + '/DESIGN.md', 'w').write(D[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + D[b:])
