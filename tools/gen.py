#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from tools/props.py."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import NOT_APPLICABLE, PROPS  # noqa: E402

TECH = 'static path-sensitive abstract interpretation (typestate / dataflow over the syntax tree)'
NOTE = (
    'Every partition of the abstract execution of the drivers is decided on the current source; the code is '
    'never run and no solver is used. Assumes: the semantics of the Python subset in sa/interp.py and the models '
    'of the standard library in sa/ext.py, atomicity of coroutine code between awaits, loops over unknown '
    'sequences unrolled to the bound of the driver, and that the protocol drivers (drivers/%s.py) describe how the '
    'public API is used. ')

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['tests'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                'observe_at': p.get('observe', []),
                'hook_needed': None,
            }}) + '\n')
        assert len(p['title']) <= 80, p['title']
na = {x['property'] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
        'technique': p.get('technique', TECH),
        'level': 'other',
        'level_note': NOTE % p['id'].lower() + p.get('note', ''),
    })
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/selfcheck.py', 'checks': checks,
               'not_applicable': NOT_APPLICABLE}, fh, indent=1)
    fh.write('\n')


# ---------------------------------------------------------------- DESIGN.md
def drivers(pid):
    """First line of each driver of a property."""
    out = []
    tree = ast.parse(open(os.path.join(ROOT, 'drivers', pid.lower() + '.py')).read())
    for f in tree.body:
        if isinstance(f, ast.FunctionDef) and f.name.startswith('d_'):
            out.append('  - `%s`: %s' % (f.name, ' '.join((ast.get_docstring(f) or '').split())))
    return out


out = [open(os.path.join(HERE, 'design', 'head.md')).read(), '## 2. The properties, and how each is decided', '',
       'The obligations below are those of `drivers/cNN.py`; each holds in every partition. (This section is generated by',
       '`tools/gen.py` from `tools/props.py` and the drivers.)', '']
for p in PROPS:
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
            '*For* %s. *Why tests cannot settle it:* %s' % (p['quant'], p['tests']), '',
            '*Anchors:* ' + ', '.join('`%s` (%s)' % m for m in p['mech']) + '.', '']
    if p.get('design'):
        out += [p['design'], '']
    if p['id'] in na:
        out += ['Not claimed: ' + [x['reason'] for x in NOT_APPLICABLE if x['property'] == p['id']][0], '']
    else:
        out += ['*Obligations:*', ''] + drivers(p['id']) + ['']
table = ['| planted bug | property | needs |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    table.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
tail = open(os.path.join(HERE, 'design', 'tail.md')).read().replace('@SEEDED@', '\n'.join(
    ['Each is caught by the check of its property (verified by applying it to /repo).', ''] + table))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fh:
    fh.write('\n'.join(out) + '\n' + open(os.path.join(HERE, 'design', 'limits.md')).read() + '\n' + tail)
