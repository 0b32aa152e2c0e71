#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 lib/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, note, tech, state=None, observe=None, level='model_checking', claim=True, reason=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = observe or ['standard output of the tool']
    a['hook_needed'] = None
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
               'why_tests_cant': why, 'anchors': a}, note, tech, level, claim, reason))


exec(open(os.path.join(V, 'lib', 'proplist.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fd:
    for p, *_ in P:
        assert len(p['title']) <= 80, p['title']
        fd.write(json.dumps(p, ensure_ascii=False) + '\n')
man = {'version': 1,
       'setup_cmd': 'python3 lib/vbuild.py >/dev/null && python3 lib/selftest.py',
       'checks': [], 'not_applicable': [],
       'notes': 'No hooks: every property is observed at the standard streams and files of the real tools, which each check '
                'rebuilds from /repo\'s working tree (lib/vbuild.py). Specifications: specs/*.tla (TLA+, TLC).'}
for p, note, tech, level, claim, reason in P:
    if claim:
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                              'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                              'technique': tech, 'level': level, 'level_note': note})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': reason})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fd:
    json.dump(man, fd, indent=1, ensure_ascii=False)
    fd.write('\n')
print(len(P), 'properties,', len(man['checks']), 'claimed')
