"""writes MANIFEST.json: one check per harness file"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Bounded symbolic execution of the real Python functions: the property is decided for every real-valued input, choice '
        'and random draw at the listed sizes (see bounds in the evidence); counterexamples are replayed on the unmodified code. '
        'Assumes exact real arithmetic and the documented contracts of NumPy/SciPy primitives; transcendental functions are '
        'uninterpreted with axioms. ')
EXTRA = {}
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'harness', i.lower() + '.py')):
        cmd = '/opt/venv/bin/python -m engine.run %s --tier ' % i
        checks.append({'property': i, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'symbolic execution of the Python source + SMT (z3, cvc5)',
                       'level': 'model_checking', 'level_note': NOTE + EXTRA.get(i, '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import engine.run, z3, sympy"'
     .replace('import engine.run, z3, sympy', 'import engine.run; import z3, sympy, numpy; import engine.ctx'),
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the source is loaded from /repo/src on every run and executed on symbolic values.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
