#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_*.py."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)


def load(name):
    path = os.path.join(HERE, name + '.py')
    if not os.path.exists(path):
        return []
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod.PROPS


props = load('props_c') + load('props_j')
lines, checks = [], []
for p in props:
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None}},
        ensure_ascii=False))
    if not os.path.exists(os.path.join(TOP, 'pbt', 'props',
                                       p['id'].lower() + '.py')):
        continue
    level = p.get('level', 'exploration')
    checks.append({
        'property': p['id'],
        'quick_cmd': f'./check {p["id"]} --tier quick',
        'thorough_cmd': f'./check {p["id"]} --tier thorough',
        'technique': p.get('technique', 'property-based testing '
                           '(model-based generation against a reference '
                           'model, shrinking)'),
        'level': level,
        'level_note': p.get('note', 'Random search with shrinking over '
                            'generated cases against an explicit oracle; '
                            'no proof beyond the cases explored. Trusts the '
                            'oracle, Hypothesis, and the third-party '
                            'libraries under the code.')})
with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
    f.write('\n'.join(lines) + '\n')
with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
               'not_applicable': [],
               'notes': 'No hooks in /repo. The checks import /repo\'s '
                        'working tree directly (pure Python, nothing to '
                        'build).'}, f, indent=1)
    f.write('\n')
print(len(props), 'properties', len(checks), 'checks')
