"""Writes properties.jsonl and MANIFEST.json from the check modules and tools/notapplicable.py."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.notapplicable import PROPS as NA

props, checks = [], []
for f in sorted(glob.glob(V + '/checks/c[0-9][0-9].py')):
    m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    pid = os.path.basename(f)[:-3].upper()
    p = dict(m.PROPERTY)
    checks.append({
        'property': pid, 'quick_cmd': './check %s --tier quick' % pid, 'thorough_cmd': './check %s --tier thorough' % pid,
        'technique': getattr(m, 'TECHNIQUE', 'symbolic execution of the LLVM IR of the C++ units and of the Python sources; path conditions '
                                             'and assertions decided by Z3; counterexamples replayed on a fresh build of /repo'),
        'level': 'model_checking',
        'level_note': 'Within the bounds: %s. Outside: %s. Assumes: %s.' % (m.BOUNDS, m.OUTSIDE, '; '.join(m.ASSUMPTIONS)),
    })
    props.append(dict({'id': pid}, **p))
na = []
for p in NA:
    q = dict(p)
    na.append({'property': q['id'], 'reason': q.pop('reason')})
    props.append(q)
props.sort(key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump({
    'version': 1,
    'setup_cmd': './check --selftest',
    'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo: the checks read its sources (C++ through clang IR, Python through its AST) and build a scratch copy for replay.',
}, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in props:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print(len(checks), 'claimed', len(na), 'not applicable')
except ImportError:
    print('not validated')
