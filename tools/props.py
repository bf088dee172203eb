#!/usr/bin/env python3
"""
Single source of the property list: writes properties.jsonl and MANIFEST.json.
(run by the author when properties change; not needed by the checks)
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = 'src/cssrlib/'


def prop(id_, title, statement, over, text, why, files, mech, tech, note,
         state=(), observe=()):
    assert len(title) <= 80, (id_, len(title))
    assert statement.count('. ') <= 2, (id_, 'more than three sentences')
    anchors = dict(files=[S+f for f in files],
                   mechanism=[dict(name=n, where=S+w) for n, w in mech])
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=S+w)
                            for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    anchors['hook_needed'] = None
    P.append((dict(id=id_, title=title, statement=statement,
                   quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=anchors), tech, note))


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p, _, _ in P:
        fh.write(json.dumps(p)+'\n')

man = dict(
    version=1,
    setup_cmd='./setup.sh',
    checks=[dict(property=p['id'],
                 quick_cmd=f"./run.sh {p['id']} quick",
                 thorough_cmd=f"./run.sh {p['id']} thorough",
                 technique=tech, level='exploration', level_note=note)
            for p, tech, note in P],
    not_applicable=NOT_APPLICABLE,
    notes='No hooks in /repo are needed: all state the monitors observe is '
    'reachable through the public API.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
print(len(P), 'properties')
