"""Writes properties.jsonl, MANIFEST.json and the fixed list of
known_findings.json from props.py (a development script)."""

import ast
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import P  # noqa
import fixed  # noqa


def constants(pid):
    path = os.path.join(HERE, 'mc', 'checks', pid.lower() + '.py')
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    return out


P.sort(key=lambda p: p['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [
                {'name': n, 'where': w} for n, w in p['mechanism']],
                'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
checks = []
for p in P:
    c = constants(p['id'])
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bash run.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + p['id'],
        'technique': c['TECHNIQUE'], 'level': c['LEVEL'],
        'level_note': p['note'] + ' Assumes: ' + ' '.join(
            c.get('ASSUMPTIONS', [])),
        })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump({
        'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
        'not_applicable': [],
        'notes': 'No hooks: the checks drive the public interface of the '
                 'package; randomness, clock, files and processes are '
                 'replaced from outside.'}, fh, indent=1)
    fh.write('\n')
path = os.path.join(HERE, 'known_findings.json')
known = json.load(open(path)) if os.path.exists(path) else {'findings': []}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
                      '--format=%h %s'], stdout=subprocess.PIPE,
                     universal_newlines=True).stdout.splitlines()[1:]
known['fixed'] = []
for line in log:
    h, s = line.split(' ', 1)
    assert s.startswith('fix: '), line
    pid = fixed.property_of(h, s)
    if pid not in [p['id'] for p in P]:
        print('no such property yet', pid, line)
    known['fixed'].append('fixed: property=%s %s %s' % (pid, h, s[5:]))
with open(path, 'w') as fh:
    json.dump(known, fh, indent=1)
    fh.write('\n')
print(len(P), 'properties', len(known['fixed']), 'fixed')
