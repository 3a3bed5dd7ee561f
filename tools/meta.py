#!/usr/bin/env python3
"""One table -> properties.jsonl and MANIFEST.json.  Run after editing: python3 tools/meta.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=list(observe), na=na))


TRUST = ('Generated-input search: no alarm means that no counterexample was found among the cases counted in the evidence file. Trusts the Python reference model in lib/poly.py '
         '(exact rationals; validated against a brute-force enumeration) and the parser of PANDA output in lib/ppl.py.')
exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
M = {'version': 1, 'setup_cmd': 'python3-vt tools/prebuild.py', 'checks': [], 'not_applicable': []}
for p in P:
    built = os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py'))
    if p['na'] or not built:
        M['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
        continue
    M['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                        'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(M, f, indent=1)
    f.write('\n')
print(len(M['checks']), 'checks,', len(M['not_applicable']), 'not claimed')
