#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 checks/registry.py  rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # (id, title, statement, over, qtext, why, files, mechanism, level_note)
NA = []     # (id, title, statement, over, qtext, why, files, mechanism, reason)
TECH = 'static analysis: value-graph (gated SSA) data-flow normal forms of the instantiated AST, compared with a reference'


def claim(id, title, statement, over, qtext, why, files, mech, note='', technique=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, technique=technique))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


CORE = 'ct_core/include/ct/core/'
OPT = 'ct_optcon/include/ct/optcon/'
exec(open(os.path.join(V, 'checks', 'claims.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in sorted(P + NA, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['qtext']},
                                'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': [], 'not_applicable': [],
         'notes': 'Every check extracts the instantiated AST of the working tree of /repo with tool/extract.cpp (clang) and decides its '
                  'obligations with checks/*.py; nothing of /repo is executed.'}
    for p in sorted(P, key=lambda p: p['id']):
        m['checks'].append({'property': p['id'], 'quick_cmd': f'python3 checks/run.py {p["id"]}',
                            'thorough_cmd': f'VERIF_TIER=thorough python3 checks/run.py {p["id"]}',
                            'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'], 'level': 'other',
                            'level_note': p['note']})
    for p in sorted(NA, key=lambda p: p['id']):
        m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
