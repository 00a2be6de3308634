#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules (read as text, nothing is imported from /repo)."""
import ast, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, have = [], set()
for f in sorted(glob.glob(os.path.join(here, 'mc', 'checks', 'c[0-9]*.py'))):
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign):
            try:
                val = ast.literal_eval(n.value)
            except ValueError:
                continue
            t = n.targets[0]
            names = [e.id for e in t.elts] if isinstance(t, ast.Tuple) else [t.id]
            for k, x in zip(names, val if isinstance(t, ast.Tuple) else [val]):
                v[k] = x
    have.add(v['PROP'])
    checks.append({'property': v['PROP'], 'quick_cmd': './run.sh %s --tier quick' % v['PROP'],
                   'thorough_cmd': './run.sh %s --tier thorough' % v['PROP'], 'evidence_file': 'evidence/%s.json' % v['PROP'],
                   'technique': v['TECHNIQUE'], 'level': v['LEVEL'],
                   'level_note': v.get('NOTE', 'Exhaustive within the bounds; nothing is sampled. ') + ' Bounds: ' + v['BOUNDS'] +
                   '. Trusts the simulated environment (mc/wire.py) and the reference model (mc/ref.py).'})
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
na = [{'property': p, 'reason': 'the check is not built yet'} for p in props if p not in have]
m = {'version': 1, 'setup_cmd': './run.sh --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Pure Python: nothing is compiled; every check imports the code from /repo as it is at that moment. No hooks in /repo.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
