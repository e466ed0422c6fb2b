#!/usr/bin/env python3
"""Authoring-time tool: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='model_checking'):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}),
              dict(property=id, quick_cmd='python3 harness/check.py %s' % id,
                   thorough_cmd='python3 harness/check.py %s thorough' % id, technique=technique, level=level, level_note=note)))


PIPE = 'TLA+ pipeline specification; recorded runs of jbofihe validated against it with TLC'
exec(open(os.path.join(V, 'tools', 'props.txt')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 harness/selfcheck.py', 'checks': [c for _, c in P], 'not_applicable': [],
           'notes': 'Black-box checks: no hooks in /repo. Every check builds /repo\'s working tree in a scratch directory of its own.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
