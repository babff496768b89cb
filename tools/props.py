"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = {}


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})
    TECH[id] = (technique, note)


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


I = 'include/nbdl/'
FLOW = ('path-sensitive abstract interpretation of the LLVM IR of opaque instantiations: every library effect is an event of the '
        'witness function\'s flow graph; must-happen/ordering/data-provenance rules are decided on all paths')
TYPE = 'type-level witnesses: static_assert facts and compile-fail programs against the library\'s type-checked templates'

exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    nas = {n['property'] for n in NA}
    man = {'version': 1, 'setup_cmd': 'python3 setup.py',
           'checks': [{'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]}', 'thorough_cmd': f'python3 check.py {p["id"]}',
                       'technique': TECH[p['id']][0], 'level': 'other', 'level_note': TECH[p['id']][1]} for p in P if p['id'] not in nas],
           'not_applicable': NA}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
