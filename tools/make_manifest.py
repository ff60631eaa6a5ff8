"""Regenerates MANIFEST.json from the property modules present (LEVEL) and tools/level_notes.json."""
import ast
import json
import os

TOOLS = os.path.dirname(os.path.abspath(__file__))
HERE = os.path.dirname(TOOLS)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = json.load(open(os.path.join(TOOLS, 'level_notes.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(HERE, 'gemsim', 'props', pid + '.py')
    if not os.path.exists(path) or isinstance(NOTE.get(pid), str):
        na.append({'property': pid, 'reason': NOTE[pid] if isinstance(NOTE.get(pid), str) else 'check not built yet'})
        continue
    level = next(ast.literal_eval(n.value) for n in ast.parse(open(path).read()).body
                 if isinstance(n, ast.Assign) and n.targets[0].id == 'LEVEL')
    checks.append({
        'property': pid,
        'quick_cmd': '/opt/venv/bin/python check.py %s quick' % pid,
        'thorough_cmd': '/opt/venv/bin/python check.py %s thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'deterministic simulation with fault injection: ' + NOTE[pid][0],
        'level': level,
        'level_note': NOTE[pid][1]})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'All seams are outside /repo (LD_PRELOAD file-call shim, replaced process pool, clock, listing order, '
              'simulated loggers), so /repo carries no hooks. Each check copies /repo/gemlog to a scratch folder and '
              'builds its parser there. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
