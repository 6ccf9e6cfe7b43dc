import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(H, 'tools'))
import suites
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    try:
        pl = suites.plan(i, 'quick')
    except SystemExit:
        na.append({'property': i, 'reason': 'check under construction'})
        continue
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                   'technique': pl.get('technique', 'Quint specification executed step by step against the real code (online model-based conformance)'),
                   'level': pl['level'], 'level_note': pl.get('note') or suites.NOTE})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: everything is observed through the public API.'}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
