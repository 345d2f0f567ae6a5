#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE + '/tools')
import checks
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
NA = dict(checks.NOT_APPLICABLE)
m = {'version': 1, 'setup_cmd': 'python3 tools/run.py --setup', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
for p in props:
    if p in NA: continue
    if p not in checks.CHECKS: m['not_applicable'].append({'property': p, 'reason': 'check under construction'}); continue
    c = checks.CHECKS[p]
    m['checks'].append({'property': p, 'quick_cmd': 'python3 tools/run.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/run.py ' + p, 'evidence_file': 'evidence/%s.json' % p,
      'technique': c.get('technique', 'symbolic execution of the LLVM IR of library, generated code and harness; Z3 decides every branch and assertion; counterexamples replayed natively'),
      'level': 'model_checking', 'level_note': 'Exhaustive within bounds: ' + c['bounds'] + '. Outside: ' + c.get('outside', '') + '.'})
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1); open(HERE + '/MANIFEST.json', 'a').write('\n')
