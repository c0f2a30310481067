"""Writes MANIFEST.json from lib/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    c = checks.CHECKS.get(i)
    if c is None:
        m['not_applicable'].append({'property': i, 'reason': checks.NA.get(i, 'no check built yet')})
        continue
    m['checks'].append({
        'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of LLVM IR compiled from /repo with symbolic schedules and inputs, SMT (z3) decides feasibility and assertions',
        'level': 'model_checking',
        'level_note': 'Holds for every schedule and input within: ' + c['bounds'] + '. Trusts: ' + '; '.join(checks.ASSUME + c.get('assume', []))})
m['notes'] = 'See DESIGN.md. Symbolic executor in engine/, harnesses in harness/, driver run.py.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
