"""Writes MANIFEST.json from the property modules (run by hand after adding a property)."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    'C28': 'needs the joint distribution of random streams in separate operating system processes (worker start-up, pickling by loky, seeding); the solver sees one process and treats every draw as an arbitrary value, so equality in distribution across processes is not expressible. The in-process part is decided by C18, C19 and C21.',
    'C29': 'convergence as the number of sweeps grows is an asymptotic statement with no bound; a bounded check cannot decide it. Its finite ingredients (exact ratio, exact conditionals, order of updates) are decided by C06-C14.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'props', i + '.py')):
        m = importlib.import_module('props.' + i)
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % i,
            'technique': 'bounded symbolic execution of the current Python source, assertions decided by z3, counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': 'Decided for every input within the bounds: %s. Assumes: %s. Trusts z3, the engine in symex/ (cross-checked by concrete replays) and numpy/pandas outside bartpy.' % (
                '; '.join('%s: %s' % (h.name, h.bounds) for h in m.HARNESSES), '; '.join(m.ASSUMPTIONS)),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built yet')})
json.dump({
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python tools/setup.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks: the checks read the current source of /repo and execute it with stand-ins for numpy, math and random. See DESIGN.md.',
}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
